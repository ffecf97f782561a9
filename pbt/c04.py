"""C04: patches behave like images on an infinite zero canvas."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close
from .gen import fl, pick, lst

PROP = 'C04'
RULE = ('A case is a pool of 3 patches (random origin, size 1-9, possibly empty or all zero, float32 or float64) and a '
        'history of up to 12 operations on them; the model is one large zero canvas per patch. Non-trivial: at least '
        'one binary operation on partially overlapping patches or a clip that cut some but not all pixels.')

LO, HI = -60, 100
N = HI - LO


def patch_spec():
    return st.fixed_dictionaries(dict(x0=st.integers(-5, 8), y0=st.integers(-5, 8), w=st.integers(1, 10),
                                      h=st.integers(1, 10), seed=gen.seeds,
                                      kind=pick('full', 'full', 'full', 'sparse', 'zero', 'none', 'f32')))


def op_spec():
    i = st.integers(0, 2)
    return st.one_of(
        st.tuples(pick('add', 'sub', 'addp', 'iadd', 'isub', 'bbox', 'nzov'), i, i).map(list),
        st.tuples(pick('mul', 'imul', 'div', 'idiv'), i, pick(2., -1.5, 0.25, 3.)).map(list),
        st.tuples(pick('clip', 'slices', 'slice', 'addto', 'pixinds'), i, st.integers(1, 14), st.integers(1, 14)).map(list),
        st.tuples(pick('roi', 'ovbox'), i, st.integers(-6, 8), st.integers(1, 12), st.integers(-6, 8), st.integers(1, 12)).map(list),
        st.tuples(pick('trim', 'copy', 'nzmask', 'extent'), i).map(list))


def build(s):
    from tractor.patch import Patch
    r = gen.rng(s['seed'])
    a = np.round(r.uniform(1, 9, size=(s['h'], s['w'])), 2)
    if s['kind'] == 'zero':
        a[:] = 0
    if s['kind'] == 'sparse':
        a[r.uniform(size=a.shape) < 0.75] = 0.
    if s['kind'] == 'none':
        return Patch(s['x0'], s['y0'], None), np.zeros((N, N))
    if s['kind'] == 'f32':
        a = a.astype(np.float32)
    C = np.zeros((N, N))
    C[s['y0'] - LO:s['y0'] - LO + s['h'], s['x0'] - LO:s['x0'] - LO + s['w']] = a
    return Patch(s['x0'], s['y0'], a), C


def canvas(p):
    C = np.zeros((N, N))
    if p.patch is not None:
        h, w = p.patch.shape
        require(LO <= p.x0 and LO <= p.y0 and p.x0 + w <= HI and p.y0 + h <= HI, 'patch far from its pixels: %s' % p)
        C[p.y0 - LO:p.y0 - LO + h, p.x0 - LO:p.x0 - LO + w] = p.patch
    return C


def support(p):
    if p.patch is None or p.patch.size == 0:
        return None
    h, w = p.patch.shape
    return (p.x0, p.x0 + w, p.y0, p.y0 + h)


def check(c, ctx):
    from tractor.patch import add_patches
    P, C = [], []
    for s in c['patches']:
        p, k = build(s)
        P.append(p)
        C.append(k)
    for op in c['ops']:
        n, i = op[0], op[1]
        p = P[i]
        before = [support(q) for q in P]
        ctx.tag(n)
        if n in ('add', 'sub', 'addp', 'iadd', 'isub'):
            j = op[2]
            q = P[j]
            a, b = before[i], before[j]
            if a and b and a != b:
                if not (a[0] >= b[1] or b[0] >= a[1] or a[2] >= b[3] or b[2] >= a[3]):
                    ctx.nt()
            if a is None or b is None:
                ctx.tag('empty-operand')
            if n == 'add':
                r, K = p + q, C[i] + C[j]
            elif n == 'sub':
                r, K = p - q, C[i] - C[j]
            elif n == 'addp':
                r, K = add_patches(p.copy(), q), C[i] + C[j]
                require(add_patches(None, q) is q and add_patches(p, None) is p, 'add_patches with None')
            elif n == 'iadd':
                r = p
                r += q
                K = C[i] + C[j]
            else:
                r = p
                r -= q
                K = C[i] - C[j]
            # operands keep their values
            close(canvas(q), C[j], 1e-5, 1e-6, '%s: right operand' % n)
            close(canvas(p), C[i], 1e-5, 1e-6, '%s: left operand' % n)
            if r.patch is not None and a and b:
                u = (min(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), max(a[3], b[3]))
                require(tuple(r.getExtent()) == u, '%s: extent %s, expected the union %s' % (n, r.getExtent(), u))
            P[i], C[i] = r, K
        elif n in ('mul', 'div'):
            f = op[2]
            r = p * f if n == 'mul' else p / f
            require(r is not p, 'not a new patch')
            close(canvas(p), C[i], 1e-5, 1e-6, '%s changed its operand' % n)
            P[i], C[i] = r, (C[i] * f if n == 'mul' else C[i] / f)
        elif n in ('imul', 'idiv'):
            f = op[2]
            # do not alias other pool entries
            P[i] = p = p.copy()
            if n == 'imul':
                p *= f
                C[i] = C[i] * f
            else:
                p /= f
                C[i] = C[i] / f
            require(p is P[i], 'in-place operation returned another object')
        elif n == 'clip':
            W, H = op[2], op[3]
            K = np.zeros_like(C[i])
            sl = slice(-LO, -LO + H), slice(-LO, -LO + W)
            K[sl] = C[i][sl]
            rv = p.clipTo(W, H)
            C[i] = K
            s = before[i]
            ov = s is not None and s[0] < W and s[1] > 0 and s[2] < H and s[3] > 0
            require(bool(rv) == ov, 'clipTo returned %s for a patch %s and an image %ix%i' % (rv, s, W, H))
            if ov:
                want = (max(s[0], 0), min(s[1], W), max(s[2], 0), min(s[3], H))
                require(support(p) == want, 'clipTo: extent %s, expected %s' % (support(p), want))
                ctx.nt(want != s)
            else:
                require(support(p) is None, 'clipTo left pixels %s of a patch outside the image' % (support(p),))
        elif n == 'roi':
            x0, x1, y0, y1 = op[2], op[2] + op[3], op[4], op[4] + op[5]
            K = np.zeros_like(C[i])
            sl = slice(y0 - LO, y1 - LO), slice(x0 - LO, x1 - LO)
            K[sl] = C[i][sl]
            rv = p.clipToRoi(x0, x1, y0, y1)
            C[i] = K
            s = before[i]
            ov = s is not None and s[0] < x1 and s[1] > x0 and s[2] < y1 and s[3] > y0
            require(bool(rv) == ov, 'clipToRoi returned %s' % rv)
            if ov:
                want = (max(s[0], x0), min(s[1], x1), max(s[2], y0), min(s[3], y1))
                require(support(p) == want, 'clipToRoi: extent %s, expected %s' % (support(p), want))
                ctx.nt(want != s)
        elif n == 'ovbox':
            x0, x1, y0, y1 = op[2], op[2] + op[3], op[4], op[4] + op[5]
            s = before[i]
            if s is not None:
                ov = s[0] < x1 and s[1] > x0 and s[2] < y1 and s[3] > y0
                require(bool(p.overlapsBbox((x0, x1, y0, y1))) == ov, 'overlapsBbox')
        elif n == 'bbox':
            a, b = before[i], before[op[2]]
            if a and b:
                ov = not (a[0] >= b[1] or b[0] >= a[1] or a[2] >= b[3] or b[2] >= a[3])
                require(bool(p.hasBboxOverlapWith(P[op[2]])) == ov, 'hasBboxOverlapWith %s %s' % (a, b))
        elif n == 'nzov':
            a, b = before[i], before[op[2]]
            # sums of products: only judged for non-negative contents
            if a and b and C[i].min() >= 0 and C[op[2]].min() >= 0:
                ov = bool(np.any((C[i] * C[op[2]]) > 0))
                require(bool(p.hasNonzeroOverlapWith(P[op[2]])) == ov,
                        'hasNonzeroOverlapWith(%s,%s) is not %s' % (a, b, ov))
        elif n == 'slices':
            if p.patch is not None:
                img = np.zeros((op[3], op[2]))
                sp, si = p.getSlices(img.shape)
                img[si] = p.patch[sp]
                close(img, C[i][-LO:-LO + op[3], -LO:-LO + op[2]], 1e-5, 1e-6, 'getSlices')
        elif n == 'slice':
            if before[i] is not None:
                img = np.arange(op[2] * op[3], dtype=float).reshape(op[3], op[2]) + 1.
                sl = p.getSlice(img)
                big = np.zeros((N, N))
                big[-LO:-LO + op[3], -LO:-LO + op[2]] = img
                s = before[i]
                m = np.zeros((N, N))
                m[s[2] - LO:s[3] - LO, s[0] - LO:s[1] - LO] = 1
                want = big[(big > 0) & (m > 0)]
                close(np.asarray(img[sl]).ravel(), want, 0., 0., 'getSlice(parent)')
        elif n == 'addto':
            W, H = op[2], op[3]
            img = gen.rng(W * 20 + H).uniform(size=(H, W))
            want = img + 1.5 * C[i][-LO:-LO + H, -LO:-LO + W]
            p.addTo(img, scale=1.5)
            close(img, want, 1e-5, 1e-5, 'addTo')
            img = np.zeros((H, W))
            p.addTo(img)
            close(img, C[i][-LO:-LO + H, -LO:-LO + W], 1e-5, 1e-5, 'addTo')
        elif n == 'pixinds':
            W, H = op[2], op[3]
            q = p.copy()
            if q.clipTo(W, H):
                ctx.tag('pixinds-judged')
                img = np.zeros((H, W))
                img.ravel()[q.getPixelIndices(img)] = q.patch.ravel()
                close(img, C[i][-LO:-LO + H, -LO:-LO + W], 1e-5, 1e-6, 'getPixelIndices')
        elif n == 'trim':
            q = p.copy()
            q.trimToNonZero()
            P[i] = q
            if np.any(C[i] != 0):
                yy, xx = np.nonzero(C[i])
                want = (xx.min() + LO, xx.max() + 1 + LO, yy.min() + LO, yy.max() + 1 + LO)
                require(support(q) == want, 'trimToNonZero: extent %s, expected %s' % (support(q), want))
        elif n == 'copy':
            q = p.copy()
            require(q is not p and (q.x0, q.y0) == (p.x0, p.y0), 'copy')
            if p.patch is not None:
                q.patch[:] = -7.
            close(canvas(p), C[i], 1e-5, 1e-6, 'writing into a copy changed the original')
        elif n == 'nzmask':
            if p.patch is not None:
                m = p.getNonZeroMask()
                close(canvas(m), (C[i] != 0) * 1., 0, 0, 'getNonZeroMask')
        elif n == 'extent':
            s = before[i]
            if s is not None:
                require(tuple(p.getExtent()) == s and tuple(p.extent) == s and p.x1 == s[1] and p.y1 == s[3] and
                        p.shape == (s[3] - s[2], s[1] - s[0]) and tuple(p.getOrigin()) == (s[0], s[2]), 'extent')
                require(tuple(p.getExtent(margin=2)) == (s[0] - 2, s[1] + 2, s[2] - 2, s[3] + 2), 'extent with margin')
        for k in range(3):
            close(canvas(P[k]), C[k], 1e-4, 1e-5, 'after %s: content of patch %d' % (op, k))


def check_mask(c, ctx):
    from tractor.patch import ModelMask
    x0, y0, w, h = c['x0'], c['y0'], c['w'], c['h']
    for m in (ModelMask(x0, y0, w, h), ModelMask(x0, y0, np.ones((h, w), bool)), ModelMask.fromExtent(x0, x0 + w, y0, y0 + h)):
        require(tuple(m.extent) == (x0, x0 + w, y0, y0 + h), 'ModelMask extent %s' % (m.extent,))
        require(tuple(m.shape) == (h, w) and m.x1 == x0 + w and m.y1 == y0 + h, 'ModelMask shape')
    ctx.nt(w != h)


SUBS = [
    Sub('ops', st.fixed_dictionaries(dict(patches=lst(patch_spec(), 3), ops=lst(op_spec(), 1, 12))), check,
        quick=6000, thorough=80000, shards=7, doc='histories of patch operations vs canvas arithmetic'),
    Sub('mask', st.fixed_dictionaries(dict(x0=st.integers(-20, 20), y0=st.integers(-20, 20), w=st.integers(1, 30),
                                           h=st.integers(1, 30))), check_mask, quick=100, thorough=1000),
]
