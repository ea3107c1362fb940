"""Compiled models against the ONNX reference evaluator."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import pypbt  # noqa: E402
from cc_lib import *  # noqa: E402,F403
import cc_ops  # noqa: E402
import cc_idioms  # noqa: E402

ONLY = os.environ.get("CC_ONLY")


def pick_op(s, groups):
    c = [(k, v) for k, v in cc_ops.OPS.items() if v[0] in groups and
         (not ONLY or k in ONLY.split(","))]
    return c[s.weighted([v[2] for _, v in c])]


def single(groups):
    def f(s):
        g = Graph(s)
        k, (_, fn, _) = pick_op(s, groups)
        s.label(k)
        outs = fn(g)
        if not outs:
            raise Discard()
        m = g.model(outs)
        args = pick_args(s, g, m)
        s.label("dynamic" if g.dyn else "static")
        check_model(s, g, m, args)
        if max(v.a.size for v in g.vals) > 1:
            s.nontrivial()
    return f


def grow(s, groups, most, const_pct=None):
    """A graph of some operators that use each other's results."""
    g = Graph(s, reuse_pct=85, const_pct=const_pct)
    for _ in range(s.range(2, most)):
        k, (_, fn, _) = pick_op(s, groups)
        keep = (len(g.nodes), len(g.vals), len(g.inputs), len(g.inits),
                len(g.ops), g.datadep, g.avoid, g.loose)
        c = [v for v in g.vals if v.kind == "node" and v.a.size]
        g.focus = s.focus = s.pick(list(reversed(c))) if c and s.chance(90) \
            else None
        g.exact_only = k in cc_ops.DISCONT
        try:
            outs = fn(g)
            if not outs or any(
                    v.a.size > 2000 or v.a.size == 0 or v.t in FLOATS and
                    not np.all(np.abs(v.a) < 1e4)
                    for v in g.vals[keep[1]:]):
                raise Discard()
            s.label(k)
        except Discard:
            del g.nodes[keep[0]:]
            del g.vals[keep[1]:]
            del g.inputs[keep[2]:]
            del g.inits[keep[3]:]
            del g.ops[keep[4]:]
            g.datadep, g.avoid, g.loose = keep[5:]
        g.exact_only = False
    g.focus = s.focus = None
    if len(g.ops) < 2:
        raise Discard()
    return g


def choose_outputs(s, g):
    used = {i for n in g.nodes for i in n.input}
    c = [v for v in g.vals if v.kind == "node"]
    outs = [v for v in c if v.name not in used or s.chance(15)]
    return [outs[k] for k in s.perm(len(outs))]


def forget_sizes(m, args):
    if "--onnx-hybrid-pass=false" in args and \
            pypbt.known("legacy-output-sizes"):
        for o in m.graph.output:
            for d in o.type.tensor_type.shape.dim:
                d.Clear()


def pick_args(s, g, m):
    args = s.pick(OPTS)
    # Division by a scale becomes a product: what is near a half rounds to
    # either side.
    if "DynamicQuantizeLinear" in g.ops and "--enable-fast-math" in args:
        args = [a for a in args if a != "--enable-fast-math"]
    if g.avoid and any(g.avoid in a for a in args):
        args = []
    forget_sizes(m, args)
    s.label("args:" + " ".join(args))
    return args


def graphs(s):
    g = grow(s, ("elem", "move", "math"), s.pick([4, 8, 3]))
    g.loose = max(g.loose, 50)
    m = g.model(choose_outputs(s, g))
    s.label("dynamic" if g.dyn else "static")
    check_model(s, g, m, pick_args(s, g, m))
    s.label("ops:%d" % len(g.ops))
    if len(g.ops) > 2:
        s.nontrivial()


def idioms(s):
    """What a rewriting rule looks for, or nearly, used by other operators."""
    g = Graph(s, reuse_pct=s.pick([0, 40]))
    names = sorted(cc_idioms.IDIOMS)
    if os.environ.get("CC_ONLY"):
        names = [n for n in names if n in os.environ["CC_ONLY"].split(",")]
    outs = []
    for _ in range(s.pick([1, 1, 2])):
        k = names[s.weighted([cc_idioms.IDIOMS[n][2] for n in names])]
        s.label(k)
        r = cc_idioms.IDIOMS[k][1](g)
        if not r:
            raise Discard()
        outs += r
    if any(v.a.size > 2000 or v.a.size == 0 or v.t in FLOATS and
           not np.all(np.abs(v.a) < 1e5) for v in g.vals):
        raise Discard()
    used = {i for n in g.nodes for i in n.input}
    more = s.pick([0, 0, 0, 15, 40])
    c = [v for v in g.vals if v.kind == "node" and
         (v in outs or v.name not in used or s.chance(more))]
    m = g.model([c[k] for k in s.perm(len(c))])
    args = pick_args(s, g, m)
    s.label("dynamic" if g.dyn else "static")
    check_model(s, g, m, args)
    if len(g.ops) > 2:
        s.nontrivial()


def input_dims(m):
    return [[d.dim_value if d.HasField("dim_value") else -1
             for d in i.type.tensor_type.shape.dim] for i in m.graph.input]


def keeps(got, want, where):
    """A size that is given stays; the compiler may find unknown ones."""
    if len(got) != len(want) or any(
            y != -1 and x != y for x, y in zip(got, want)):
        raise Fail("%s: dims %s, not %s" % (where, got, want))


def shapes(s):
    """The types shape inference finds, for every value of a graph."""
    g = grow(s, ("elem", "move", "math", "seq"), s.pick([4, 8, 3]))
    c = [v for v in g.vals if v.kind == "node"]
    m = g.model([c[k] for k in s.perm(len(c))])
    args = list(s.pick([[], ["-O3"], ["--disable-recompose"],
                        ["--onnx-hybrid-pass=false"],
                        ["--disable-constant-prop"],
                        ["--useOnnxModelTypes=false"]]))
    if g.avoid and any(g.avoid in a for a in args):
        args = []
    forget_sizes(m, args)
    env = {}
    dims = input_dims(m)
    how = s.weighted([3, 3, 2])
    if how == 1 and dims:
        # Custom shapes: the sizes of some dimensions, leading ones only.
        parts = []
        for k, (n, a, d) in enumerate(g.inputs):
            if a.ndim and s.chance(70):
                u = s.range(1, a.ndim)
                # -1 for a size the model gives is not what this is for: the
                # types of the model's other values would contradict it.
                new = [x if y != -1 or not d or s.chance(70) else -1
                       for x, y in zip(a.shape[:u], dims[k])]
                dims[k][:u] = new
                parts.append("%d:%s" % (k, "x".join(map(str, new))))
        if parts:
            parts = [parts[i] for i in s.perm(len(parts))]
            args.append("--shapeInformation=" + ",".join(parts))
            s.label("shapeInformation")
    elif how == 2 and dims:
        parts = []
        for k, (n, a, d) in enumerate(g.inputs):
            if d and a.ndim and s.chance(70):
                if s.chance(40):
                    new, t = range(a.ndim), "-1"
                else:
                    new = [i for i in range(a.ndim) if s.chance(50)]
                    t = ",".join(map(str, new))
                if t:
                    for i in new:
                        dims[k][i] = -1
                    parts.append("%d:%s" % (k, t))
        if parts:
            env["IMPORTER_FORCE_DYNAMIC"] = "|".join(parts)
            s.label("force-dynamic")
    s.note(describe(m, args, []) + "env %r" % env)
    r = compile_run(m, [], args, mode="onnx", env=env)
    if not r.ok:
        raise Fail(r.why())
    for (n, a, _), d, t in zip(g.inputs, dims, r.h["in_types"]):
        fits(t, a, n)
        keeps(parse_type(t)[1], d, n)
    known = 0
    for i, v in zip(r.h["out_types"], g.outs):
        fits(i, v.a, v.name)
        known += -1 not in (parse_type(i)[1] or [-1])
    s.label("static" if all(-1 not in d for d in dims) else "dynamic")
    s.label("all known" if known == len(g.outs) else "some unknown")
    if len(g.ops) > 2:
        s.nontrivial()


def signature(s):
    """The signature strings and actual results of one-operator models."""
    g = Graph(s)
    k, (_, fn, _) = pick_op(s, ("elem", "move", "math", "seq"))
    s.label(k)
    outs = fn(g)
    if not outs:
        raise Discard()
    m = g.model(outs)
    r = check_model(s, g, m, pick_args(s, g, m))
    li = check_sig(r.h["in_sig"], [(n, a) for n, a, _ in g.inputs], "input")
    for x, d in zip(li, input_dims(m)):
        keeps(x["dims"], d, "signature of " + x["name"])
    check_sig(r.h["out_sig"], [(v.name, v.a) for v in g.outs], "output")
    if len(g.inputs) > 1:
        s.nontrivial()


def probe(text, *ins, args=(), opset=18):
    """A known finding, as a fixed model."""
    def f(s):
        m = onnx.parser.parse_model(
            '<ir_version: 8, opset_import: ["" : %d]> main_graph ' % opset +
            text)
        s.note(text)
        for i in m.graph.input:
            for d in i.type.tensor_type.shape.dim:
                if d.dim_param:
                    d.dim_param = ""
        ref = reference(m, {i.name: a for i, a in zip(m.graph.input, ins)})
        r = compile_run(m, [list(ins)], list(args))
        if not r.ok:
            raise Fail(r.why())
        for o, w in zip(r.runs[0], ref):
            d = diff(o, np.asarray(w), 1.0, "")
            if d:
                raise Fail(d)
        s.nontrivial()
    return f, None


def F(*sh):
    return np.arange(1, 1 + int(np.prod(sh)), dtype=np.float32).reshape(sh)


def I(*a):
    return np.array(a, np.int64)


PROBES = {
    "k_matmul_batch": probe(
        "(float[a,2,3] x, float[b,3,2] y) => (float[c,2,2] o) "
        "{ o = MatMul(x, y) }", F(1, 2, 3), F(2, 3, 2)),
    "k_qlinear": probe(
        "(uint8[1,1] x, uint8[1,1] y, float s, uint8 z) => (uint8[1,1] o) "
        "{ a = DequantizeLinear(x, s, z)\n b = DequantizeLinear(y, s, z)\n "
        "m = MatMul(a, b)\n o = QuantizeLinear(m, s, z) }",
        np.array([[20]], np.uint8), np.array([[20]], np.uint8),
        np.array(1, np.float32), np.array(0, np.uint8), opset=19),
    "k_nonzero": probe(
        "(float[2,3] x) => (int64[a,b] o) { o = NonZero(x) }", F(2, 3)),
    "k_s2d": probe(
        "(float[1,2,2,2] x) => (float[1,8,1,1] o) "
        "{ o = SpaceToDepth<blocksize = 2>(x) }", F(1, 2, 2, 2)),
    "k_d2s_dynamic": probe(
        "(float[a,b,c,d] x) => (float[e,f,g,h] o) "
        "{ o = DepthToSpace<blocksize = 2>(x) }", F(1, 4, 1, 1)),
    "k_gathernd": probe(
        "(float[3] x, int64[1,1] i) => (float[1] o) { o = GatherND(x, i) }",
        F(3), I([-1])),
    "k_scatternd": probe(
        "(float[3,3] x, int64[2,2] i, float[2] u) => (float[3,3] o) "
        "{ o = ScatterND(x, i, u) }", F(3, 3), I([0, 1], [2, 2]), F(2)),
    "k_split": probe(
        "(float[a] x) => (float[b] o, float[c] p, float[d] q) "
        "{ o, p, q = Split<num_outputs = 3>(x) }", F(8)),
    "k_fusion": probe(
        "(float[7,4] x, float[7,4] y, float[7,a] z) => (float[7,4] o) "
        "{ s = Add(x, y)\n o = Add(s, z) }", F(7, 4), F(7, 4), F(7, 1)),
    "k_rnn_lens": probe(
        "(float[2,1,1] x, float[1,3,1] w, float[1,3,1] r, int32[1] l) => "
        "(float[2,1,1,1] o) { o = GRU<hidden_size = 1>(x, w, r, , l) }",
        F(2, 1, 1), F(1, 3, 1), F(1, 3, 1), np.array([1], np.int32)),
    "k_rnn_clip": probe(
        "(float[2,1,1] x, float[1,1,1] w, float[1,1,1] r) => "
        "(float[2,1,1,1] o) { o = RNN<hidden_size = 1, clip = 0.5>(x, w, r) "
        "}", F(2, 1, 1), F(1, 1, 1), F(1, 1, 1)),
    "k_constprop": probe(
        "() => (int64[a,b] o) { x = Constant<value_ints = [0,1,1,0]>()\n "
        "y = NonZero(x)\n o = Add(y, y) }", args=["--onnx-hybrid-pass=false"]),
    "k_legacy_return": probe(
        "(int64 x, int64 y, int64 z) => (int64[1] o) { r = Range(x, y, z)\n "
        "o = Transpose(r) }", np.int64(1), np.int64(2), np.int64(1),
        args=["--onnx-hybrid-pass=false"]),
}

PROPS = {**PROBES, "graphs": (graphs, None), "idioms": (idioms, None),
         "shapes": (shapes, None),
         "signature": (signature, None),
         "elem": (single(("elem",)), None), "move": (single(("move",)), None),
         "math": (single(("math",)), None), "seq": (single(("seq",)), None)}

if __name__ == "__main__":
    pypbt.main(PROPS)
