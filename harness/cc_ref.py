"""Numpy definitions of the operators whose onnx.reference implementation is
wrong or incomplete; passed to ReferenceEvaluator in place of its own."""
import itertools
import math

import numpy as np
from onnx.reference.op_run import OpRun


def _attr(v, d):
    return d if v is None else v


def _pads(spatial, k, st, dil, auto_pad, pads):
    """Begin pads, end pads."""
    nd = len(spatial)
    if auto_pad in ("SAME_UPPER", "SAME_LOWER"):
        b, e = [], []
        for i in range(nd):
            o = -(-spatial[i] // st[i])
            t = max(0, (o - 1) * st[i] + (k[i] - 1) * dil[i] + 1 - spatial[i])
            lo = t // 2 if auto_pad == "SAME_UPPER" else t - t // 2
            b.append(lo)
            e.append(t - lo)
        return b, e
    if auto_pad == "VALID" or not pads:
        return [0] * nd, [0] * nd
    return list(pads[:nd]), list(pads[nd:])


class Conv(OpRun):
    def _run(self, X, W, B=None, auto_pad=None, dilations=None, group=None,
             kernel_shape=None, pads=None, strides=None):
        nd = X.ndim - 2
        k = W.shape[2:]
        st = list(strides or [1] * nd)
        dil = list(dilations or [1] * nd)
        group = group or 1
        b, e = _pads(X.shape[2:], k, st, dil, auto_pad, pads)
        Xp = np.pad(X.astype(np.float64), [(0, 0), (0, 0)] + list(zip(b, e)))
        out = [(Xp.shape[2 + i] - (k[i] - 1) * dil[i] - 1) // st[i] + 1
               for i in range(nd)]
        N, M = X.shape[0], W.shape[0]
        cg, mg = W.shape[1], M // group
        Y = np.zeros([N, M] + out)
        for p in itertools.product(*map(range, k)):
            sl = tuple(slice(p[i] * dil[i],
                             p[i] * dil[i] + (out[i] - 1) * st[i] + 1, st[i])
                       for i in range(nd))
            for g in range(group):
                x = Xp[(slice(None), slice(g * cg, (g + 1) * cg)) + sl]
                w = W[(slice(g * mg, (g + 1) * mg), slice(None)) + p].astype(
                    np.float64)
                Y[:, g * mg:(g + 1) * mg] += np.moveaxis(
                    np.tensordot(w, x, ([1], [1])), 0, 1)
        if B is not None:
            Y += B.astype(np.float64).reshape([1, M] + [1] * nd)
        return (Y.astype(X.dtype),)


class ConvTranspose(OpRun):
    def _run(self, X, W, B=None, auto_pad=None, dilations=None, group=None,
             kernel_shape=None, output_padding=None, output_shape=None,
             pads=None, strides=None):
        if output_shape or auto_pad not in (None, "NOTSET"):
            raise NotImplementedError()
        nd = X.ndim - 2
        k = W.shape[2:]
        st = list(strides or [1] * nd)
        dil = list(dilations or [1] * nd)
        op = list(output_padding or [0] * nd)
        pads = list(pads or [0] * (2 * nd))
        group = group or 1
        N, C, mg = X.shape[0], X.shape[1], W.shape[1]
        cg = C // group
        full = [st[i] * (X.shape[2 + i] - 1) + (k[i] - 1) * dil[i] + 1 + op[i]
                for i in range(nd)]
        Y = np.zeros([N, mg * group] + full)
        for p in itertools.product(*map(range, k)):
            sl = tuple(slice(p[i] * dil[i],
                             p[i] * dil[i] + (X.shape[2 + i] - 1) * st[i] + 1,
                             st[i]) for i in range(nd))
            for g in range(group):
                x = X[:, g * cg:(g + 1) * cg].astype(np.float64)
                w = W[(slice(g * cg, (g + 1) * cg), slice(None)) + p].astype(
                    np.float64)
                Y[(slice(None), slice(g * mg, (g + 1) * mg)) + sl] += \
                    np.moveaxis(np.tensordot(w, x, ([0], [1])), 0, 1)
        Y = Y[(slice(None), slice(None)) + tuple(
            slice(pads[i], full[i] - pads[nd + i]) for i in range(nd))]
        if B is not None:
            Y = Y + B.astype(np.float64).reshape([1, -1] + [1] * nd)
        return (Y.astype(X.dtype),)


class _Pool(OpRun):
    def pool(self, X, f, fill, auto_pad, ceil_mode, dilations, k, pads,
             strides):
        nd = X.ndim - 2
        st = list(strides or [1] * nd)
        dil = list(dilations or [1] * nd)
        b, e = _pads(X.shape[2:], k, st, dil, auto_pad, pads)
        out = []
        for i in range(nd):
            n = X.shape[2 + i] + b[i] + e[i] - (k[i] - 1) * dil[i] - 1
            o = (-(-n // st[i]) if ceil_mode else n // st[i]) + 1
            # a window may not start in the end padding
            if ceil_mode and (o - 1) * st[i] >= X.shape[2 + i] + b[i]:
                o -= 1
            out.append(o)
        Y = np.zeros(list(X.shape[:2]) + out, X.dtype)
        for o in itertools.product(*map(range, out)):
            idx, n_in, n_pad = [], 1, 1
            for i in range(nd):
                q = [o[i] * st[i] + j * dil[i] - b[i] for j in range(k[i])]
                r = [v for v in q if 0 <= v < X.shape[2 + i]]
                n_in *= len(r)
                n_pad *= len([v for v in q
                              if -b[i] <= v < X.shape[2 + i] + e[i]])
                idx.append(r)
            w = X[np.ix_(range(X.shape[0]), range(X.shape[1]), *idx)]
            Y[(slice(None), slice(None)) + o] = f(w, n_in, n_pad)
        return (Y,)


class MaxPool(_Pool):
    def _run(self, x, auto_pad=None, ceil_mode=None, dilations=None,
             kernel_shape=None, pads=None, storage_order=None, strides=None):
        ax = tuple(range(2, x.ndim))
        return self.pool(
            x, lambda w, n, p: w.max(axis=ax) if w.size else -np.inf, None,
            auto_pad, ceil_mode, dilations, kernel_shape, pads, strides)


class AveragePool(_Pool):
    def _run(self, x, auto_pad=None, ceil_mode=None, count_include_pad=None,
             dilations=None, kernel_shape=None, pads=None, strides=None):
        ax = tuple(range(2, x.ndim))

        def f(w, n, p):
            d = p if count_include_pad else n
            return w.astype(np.float64).sum(axis=ax) / d if d else np.nan
        return self.pool(x, f, None, auto_pad, ceil_mode, dilations,
                         kernel_shape, pads, strides)


class GlobalMaxPool(OpRun):
    def _run(self, x):
        return (x.max(axis=tuple(range(2, x.ndim)), keepdims=True),)


class GlobalAveragePool(OpRun):
    def _run(self, x):
        return (x.astype(np.float64).mean(
            axis=tuple(range(2, x.ndim)), keepdims=True).astype(x.dtype),)


class LRN(OpRun):
    def _run(self, x, alpha=None, beta=None, bias=None, size=None):
        alpha, beta, bias = _attr(alpha, 1e-4), _attr(beta, .75), _attr(
            bias, 1.)
        C = x.shape[1]
        x2 = x.astype(np.float64) ** 2
        s = np.zeros_like(x2)
        for c in range(C):
            lo = max(0, c - (size - 1) // 2)
            hi = min(C - 1, c + math.ceil((size - 1) / 2))
            s[:, c] = x2[:, lo:hi + 1].sum(axis=1)
        return ((x / (bias + alpha / size * s) ** beta).astype(x.dtype),)


class BatchNormalization(OpRun):
    def _run(self, x, scale, bias, mean, var, epsilon=None, momentum=None,
             training_mode=None, spatial=None):
        sh = [1, x.shape[1]] + [1] * (x.ndim - 2)
        r = lambda v: v.astype(np.float64).reshape(sh)
        y = (x - r(mean)) / np.sqrt(r(var) + _attr(epsilon, 1e-5)) * r(
            scale) + r(bias)
        return (y.astype(x.dtype),)


class ReduceSumSquare(OpRun):
    def _run(self, x, axes=None, keepdims=None, noop_with_empty_axes=None):
        if axes is not None and np.size(axes) == 0:
            axes = None
        if axes is None and noop_with_empty_axes:
            return (x * x,)
        ax = None if axes is None else tuple(int(a) for a in np.ravel(axes))
        return (np.asarray(np.sum(x * x, axis=ax, dtype=x.dtype,
                                  keepdims=_attr(keepdims, 1) != 0)),)


# --- recurrent ---------------------------------------------------------------

def _act(name, alpha, beta):
    n = (name if isinstance(name, str) else name.decode()).lower()
    a = lambda d: d if alpha is None else alpha
    b = lambda d: d if beta is None else beta
    return {
        "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "tanh": np.tanh,
        "relu": lambda x: np.maximum(x, 0),
        "affine": lambda x: a(1.0) * x + b(0.0),
        "leakyrelu": lambda x: np.where(x < 0, a(0.01) * x, x),
        "thresholdedrelu": lambda x: np.where(x > a(1.0), x, 0),
        "scaledtanh": lambda x: a(1.0) * np.tanh(b(1.0) * x),
        "hardsigmoid": lambda x: np.clip(a(0.2) * x + b(0.5), 0, 1),
        "elu": lambda x: np.where(x < 0, a(1.0) * np.expm1(x), x),
        "softsign": lambda x: x / (1 + np.abs(x)),
        "softplus": lambda x: np.log1p(np.exp(x))}[n]


class _Rnn(OpRun):
    G, NA, DEF = 1, 1, ["Tanh"]

    def go(self, X, W, R, B, lens, H0, C0, direction, hidden, activations,
           alphas, betas, clip, layout, step):
        f64 = lambda v: v.astype(np.float64)
        if layout:
            X = np.swapaxes(X, 0, 1)
            H0 = H0 if H0 is None else np.swapaxes(H0, 0, 1)
            C0 = C0 if C0 is None else np.swapaxes(C0, 0, 1)
        T, N, _ = X.shape
        D = W.shape[0]
        H = hidden
        names = list(activations or self.DEF * D)
        dirs = {1: ["forward"], 2: ["forward", "reverse"]}[D]
        if D == 1 and direction in ("reverse", b"reverse"):
            dirs = ["reverse"]
        Y = np.zeros([T, D, N, H])
        Yh, Yc = np.zeros([D, N, H]), np.zeros([D, N, H])
        lens = np.full(N, T) if lens is None else lens
        for d in range(D):
            acts = []
            for i in range(self.NA):
                j = d * self.NA + i
                acts.append(_act(
                    names[j], alphas[j] if alphas and j < len(alphas) else
                    None, betas[j] if betas and j < len(betas) else None))
            for n in range(N):
                h = f64(H0[d, n]) if H0 is not None else np.zeros(H)
                c = f64(C0[d, n]) if C0 is not None else np.zeros(H)
                ts = range(int(lens[n]))
                if dirs[d] == "reverse":
                    ts = reversed(ts)
                for t in ts:
                    h, c = step(d, f64(X[t, n]), h, c, acts)
                    Y[t, d, n] = h
                Yh[d, n], Yc[d, n] = h, c
        if layout:
            Y = np.transpose(Y, (2, 0, 1, 3))
            Yh, Yc = np.swapaxes(Yh, 0, 1), np.swapaxes(Yc, 0, 1)
        return tuple(v.astype(X.dtype) for v in (Y, Yh, Yc))


def _clipper(clip):
    return (lambda v: np.clip(v, -clip, clip)) if clip else (lambda v: v)


class RNN(_Rnn):
    def _run(self, X, W, R, B=None, lens=None, H0=None, activation_alpha=None,
             activation_beta=None, activations=None, clip=None,
             direction=None, hidden_size=None, layout=None):
        H = R.shape[-1]
        b = np.zeros([W.shape[0], 2 * H]) if B is None else B
        cl = _clipper(clip)

        def step(d, x, h, c, a):
            return a[0](cl(W[d].astype(np.float64) @ x + R[d].astype(
                np.float64) @ h + b[d][:H] + b[d][H:])), c
        r = self.go(X, W, R, B, lens, H0, None, direction, H, activations,
                    activation_alpha, activation_beta, clip, layout, step)
        return r[:2]


class LSTM(_Rnn):
    NA, DEF = 3, ["Sigmoid", "Tanh", "Tanh"]

    def _run(self, X, W, R, B=None, lens=None, H0=None, C0=None, P=None,
             activation_alpha=None, activation_beta=None, activations=None,
             clip=None, direction=None, hidden_size=None, input_forget=None,
             layout=None):
        H = R.shape[-1]
        b = np.zeros([W.shape[0], 8 * H]) if B is None else B
        p = np.zeros([W.shape[0], 3 * H]) if P is None else P
        cl = _clipper(clip)

        def step(d, x, h, c, a):
            z = (W[d].astype(np.float64) @ x + R[d].astype(np.float64) @ h
                 + b[d][:4 * H] + b[d][4 * H:])
            i, o, f, g = (z[k * H:(k + 1) * H] for k in range(4))
            pi, po, pf = (p[d][k * H:(k + 1) * H] for k in range(3))
            i = a[0](cl(i + pi * c))
            f = a[0](cl(f + pf * c)) if not input_forget else 1 - i
            g = a[1](cl(g))
            c2 = f * c + i * g
            o = a[0](cl(o + po * c2))
            return o * a[2](c2), c2
        return self.go(X, W, R, B, lens, H0, C0, direction, H, activations,
                       activation_alpha, activation_beta, clip, layout, step)


class GRU(_Rnn):
    NA, DEF = 2, ["Sigmoid", "Tanh"]

    def _run(self, X, W, R, B=None, lens=None, H0=None,
             activation_alpha=None, activation_beta=None, activations=None,
             clip=None, direction=None, hidden_size=None, layout=None,
             linear_before_reset=None):
        H = R.shape[-1]
        b = np.zeros([W.shape[0], 6 * H]) if B is None else B
        cl = _clipper(clip)

        def step(d, x, h, c, a):
            f = np.float64
            wx = W[d].astype(f) @ x + b[d][:3 * H]
            rb = b[d][3 * H:]
            r_ = R[d].astype(f)
            z = a[0](cl(wx[:H] + r_[:H] @ h + rb[:H]))
            r = a[0](cl(wx[H:2 * H] + r_[H:2 * H] @ h + rb[H:2 * H]))
            if linear_before_reset:
                q = r * (r_[2 * H:] @ h + rb[2 * H:])
            else:
                q = r_[2 * H:] @ (r * h) + rb[2 * H:]
            hh = a[1](cl(wx[2 * H:] + q))
            return (1 - z) * hh + z * h, c
        return self.go(X, W, R, B, lens, H0, None, direction, H, activations,
                       activation_alpha, activation_beta, clip, layout,
                       step)[:2]


OPS = [Conv, ConvTranspose, MaxPool, AveragePool, GlobalMaxPool, GlobalAveragePool, LRN,
       BatchNormalization, ReduceSumSquare, RNN, LSTM, GRU]
for c in OPS:
    c.op_domain = ""
