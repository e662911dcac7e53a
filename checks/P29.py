"""Linear algebra over GF(2) against plain integer arithmetic on Python ints."""

import types

import numba
import numpy as np

import gen
import lazyjit
from core import Family
from graphix._linalg import MatGF2, solve_f2_linear_system

ID = "P29"
QUICK_SCALE = 3
RULE = (
    "Random matrices over GF(2) of every shape (empty, single row, wide, tall, rank deficient, up to 12x14; up to 4000 columns in the multi-threaded family), in every memory layout, and linear systems in row echelon form. "
    "Oracle: elimination on Python integers used as bit rows, products modulo 2. Kernels also run compiled with bounds checking (memory sanitizer) and with 1-8 threads. Non-trivial: a matrix of rank >= 2; distinct = matrix."
)
ASSUMPTIONS = ["entries 0/1; in-place elimination only on C-contiguous matrices"]
FLOORS = {"medium": 100, "matrices": 900, "ranks": 900, "inverses": 100, "no_inverse": 200, "kernels": 900, "systems": 600, "products": 900, "bounds_checked": 60, "large": 12, "layouts": 300, "refused": 60}
WARM = ()
TWINS = {}


def setup():
    for k in lazyjit.ALL:
        if k._fn.__module__ == "graphix._linalg":
            k.resolve()
            fn = types.FunctionType(k._fn.__code__, dict(k._fn.__globals__), k.__name__, k._fn.__defaults__, k._fn.__closure__)
            TWINS[k] = lazyjit._REAL_NJIT(*k._args, **{**k._kwargs, "boundscheck": True})(fn)


def rows(a):
    """Rows as integers, most significant bit first."""
    a = np.asarray(a)
    return [int("".join(str(int(x)) for x in r) or "0", 2) for r in a]


def echelon(rs, n):
    """Reduced row echelon form: (rows, pivots)."""
    rs, piv, p = list(rs), [], 0
    for j in range(n):
        b = 1 << (n - 1 - j)
        k = next((k for k in range(p, len(rs)) if rs[k] & b), None)
        if k is None:
            continue
        rs[p], rs[k] = rs[k], rs[p]
        rs = [r ^ rs[p] if x != p and r & b else r for x, r in enumerate(rs)]
        piv.append(j)
        p += 1
    return rs, piv


def span(rs, n):
    r, piv = echelon(rs, n)
    return r[: len(piv)]


def mul(a, b):
    return np.asarray(np.asarray(a, dtype=np.int64) @ np.asarray(b, dtype=np.int64) % 2, dtype=np.uint8)


def random_matrix(rng, hi_m=12, hi_n=14):
    m, n = int(rng.integers(0, hi_m + 1)), int(rng.integers(0, hi_n + 1))
    if gen.chance(rng, 0.25):
        n = m
    d = float(gen.pick(rng, (0.0, 0.1, 0.3, 0.5, 0.9, 1.0)))
    a = (rng.random((m, n)) < d).astype(np.uint8)
    r = rng.random()
    if m and r < 0.3:  # dependent rows
        k = int(rng.integers(1, m + 1))
        a = mul((rng.random((m, k)) < 0.5).astype(np.uint8), a[:k])
    elif m == n and m and r < 0.6:  # invertible
        lo = np.tril(rng.integers(0, 2, (m, m)), -1) + np.eye(m, dtype=int)
        up = np.triu(rng.integers(0, 2, (m, m)), 1) + np.eye(m, dtype=int)
        a = mul(lo, up)[rng.permutation(m)]
    elif m and n > m and r < 0.6:  # full row rank
        a[:, rng.permutation(n)[:m]] = np.eye(m, dtype=np.uint8)
    return a


def layout(rng, a):
    """The same values in another memory layout (fresh memory)."""
    k = int(rng.integers(7))
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return np.ascontiguousarray(a.T).T
    if k == 2:
        b = np.full((2 * a.shape[0], a.shape[1]), 7, dtype=np.uint8)
        b[::2] = a
        return b[::2]
    if k == 3:
        b = np.full((a.shape[0], 2 * a.shape[1] + 1), 7, dtype=np.uint8)
        b[:, 1::2] = a
        return b[:, 1::2]
    if k == 4:
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == 5:
        return a.astype(bool)
    return a.copy()


def plain(x):
    return np.array(np.asarray(x))


def one(ctx, rng, a):
    m, n = a.shape
    src = layout(rng, a)
    mat = MatGF2(src)
    ctx.count("matrices")
    ctx.count("layouts", 0 if src.flags["C_CONTIGUOUS"] else 1)
    ctx.check(type(mat) is MatGF2 and mat.dtype == np.uint8 and mat.shape == a.shape and np.array_equal(mat, a), "construct", "MatGF2 differs from its data", data=a, strides=src.strides)
    ctx.check(not np.shares_memory(mat, src), "construct-copy", "MatGF2 shares the memory of its data by default")
    if src.dtype == np.uint8 and (src.flags["C_CONTIGUOUS"] or src.flags["F_CONTIGUOUS"]):
        v = MatGF2(src, copy=False)
        ctx.check(np.array_equal(v, a) and (a.size == 0 or np.shares_memory(v, src)), "construct-view", "MatGF2(copy=False)")
    if gen.chance(rng, 0.4):  # a matrix that is itself a view
        mat = MatGF2(np.ascontiguousarray(a.T)).T if gen.chance(rng, 0.5) else MatGF2(np.vstack([a, a]))[:m]
        ctx.check(type(mat) is MatGF2 and np.array_equal(mat, a), "view", "view of a MatGF2")
    rs = rows(a)
    red, piv = echelon(rs, n)
    rank = len(piv)
    if rank >= 2:
        ctx.nontrivial(a.tobytes() + bytes(a.shape))

    def frozen(what):
        ctx.check(np.array_equal(mat, a), "modified", f"{what} modified the matrix", data=a)

    ctx.check(int(mat.rank()) == rank, "rank", f"rank {mat.rank()} instead of {rank}", data=a)
    ctx.count("ranks")
    frozen("rank")
    # elimination, also on the first columns only
    nc = None if gen.chance(rng, 0.5) else int(rng.integers(0, n + 1))
    cols = n if nc is None else nc
    for full in (False, True):
        f = mat.row_reduction if full else mat.gauss_elimination
        e = f() if nc is None and gen.chance(rng, 0.5) else f(ncols=nc)
        name = "row_reduction" if full else "gauss_elimination"
        frozen(name)
        ctx.check(type(e) is MatGF2 and e.shape == a.shape and e.dtype == np.uint8 and set(np.unique(e)) <= {0, 1}, name, f"type of {name}")
        er = rows(e)
        ctx.check(span(er, n) == span(rs, n), name, f"{name} changed the row space", data=a, ncols=nc, result=plain(e))
        left = plain(e)[:, :cols]
        lead = [int(np.flatnonzero(r)[0]) if r.any() else cols for r in left]
        real = [x for x in lead if x < cols]
        ctx.check(lead == sorted(lead) and len(set(real)) == len(real) and real == echelon(rows(a[:, :cols]), cols)[1], name, f"{name} is not in row echelon form", data=a, ncols=nc, result=plain(e))
        if full:
            ctx.check(all(left[:, j].sum() == 1 for j in real), name, "row_reduction is not reduced", data=a, ncols=nc, result=plain(e))
            if nc is None:
                ctx.check(er == red, name, "row_reduction is not the reduced row echelon form", data=a, result=plain(e))
        w = MatGF2(np.ascontiguousarray(a))
        e2 = (w.row_reduction if full else w.gauss_elimination)(ncols=nc, copy=False)
        ctx.check(np.array_equal(e2, e) and np.array_equal(w, e), name, f"{name}(copy=False) is not done in place", data=a)
    # right inverse
    inv = mat.right_inverse()
    frozen("right_inverse")
    if rank == m:
        ctx.check(inv is not None and type(inv) is MatGF2 and inv.shape == (n, m) and np.array_equal(mul(a, plain(inv)), np.eye(m)), "right-inverse", "right_inverse", data=a, result=inv)
        ctx.count("inverses")
    else:
        ctx.check(inv is None, "right-inverse", "right_inverse of a matrix without right inverse", data=a, result=inv)
        ctx.count("no_inverse")
    # kernel
    ker = mat.null_space()
    frozen("null_space")
    ctx.check(type(ker) is MatGF2 and ker.shape == (n - rank, n), "null-space", f"null space of shape {ker.shape} instead of {(n - rank, n)}", data=a)
    ctx.check(not mul(a, plain(ker).T).any() and len(echelon(rows(ker), n)[1]) == n - rank, "null-space", "null_space is not a basis of the kernel", data=a, result=plain(ker))
    ctx.count("kernels")
    # products
    b = (rng.random((n, int(rng.integers(0, 9)))) < 0.5).astype(np.uint8)
    other = layout(rng, b).astype(np.uint8, copy=False)
    if gen.chance(rng, 0.5):
        other = MatGF2(other)
    p = mat.mat_mul(other)
    frozen("mat_mul")
    ctx.check(np.array_equal(other, b), "modified", "mat_mul modified its argument")
    ctx.check(type(p) is MatGF2 and p.dtype == np.uint8 and np.array_equal(p, mul(a, b)), "product", "mat_mul", a=a, b=b, result=plain(p))
    ctx.count("products")
    # systems in row echelon form
    x0 = rng.integers(0, 2, n).astype(np.uint8)
    e = mat.gauss_elimination() if gen.chance(rng, 0.5) else mat.row_reduction()
    rhs = mul(plain(e), x0)
    be, bb = plain(e), rhs.copy()
    x = solve_f2_linear_system(e, MatGF2(rhs))
    ctx.check(type(x) is MatGF2 and x.shape == (n,) and np.array_equal(mul(be, plain(x)), bb), "solve", "solve_f2_linear_system", mat=be, b=bb, result=plain(x))
    ctx.check(np.array_equal(e, be) and np.array_equal(rhs, bb), "modified", "solve_f2_linear_system modified its arguments")
    ctx.count("systems")


def matrices(ctx, rng, i):
    for _ in range(6):
        one(ctx, rng, random_matrix(rng))


def medium(ctx, rng, i):
    """Sizes of the matrices of a flow search on hundreds of nodes."""
    hi = int(gen.pick(rng, (30, 60, 130)))
    one(ctx, rng, random_matrix(rng, hi, hi + 10))
    ctx.count("medium")


def small(ctx, rng, i):
    """Every 3x3 matrix over GF(2), and every matrix of smaller shapes as its blocks."""
    a = np.array([[i >> (3 * r + c) & 1 for c in range(3)] for r in range(3)], dtype=np.uint8)
    one(ctx, rng, a)
    if i < 64:
        one(ctx, rng, a[:2])
        one(ctx, rng, a[:, :2])


def checked(ctx, rng, i):
    """The same with the kernels compiled with bounds checking."""
    saved = {k: k._real for k in TWINS}
    for k, t in TWINS.items():
        k._real = t
    try:
        for _ in range(3):
            one(ctx, rng, random_matrix(rng, 8, 10))
            ctx.count("bounds_checked")
    finally:
        for k, r in saved.items():
            k._real = r


def large(ctx, rng, i):
    """Multi-threaded products and big eliminations do not depend on the number of threads."""
    top = numba.config.NUMBA_NUM_THREADS
    m, l, n = (int(rng.integers(1, 301)) for _ in range(3))
    if i % 3 == 0:  # few rows: little work for a schedule over the rows
        m = int(rng.integers(1, 4))
    if i % 6 == 3:  # ... and a long inner dimension
        m, l, n = int(rng.integers(1, 4)), int(rng.integers(500, 4000)), int(rng.integers(1, 40))
    elif i % 6 == 5:  # a long outer one
        m, l, n = int(rng.integers(1, 40)), int(rng.integers(1, 4)), int(rng.integers(500, 4000))
    a = (rng.random((m, l)) < gen.pick(rng, (0.1, 0.5, 0.9))).astype(np.uint8)
    b = (rng.random((l, n)) < 0.5).astype(np.uint8)
    want = mul(a, b)
    for threads in (1, 2, 3, 4, 8):
        if threads > top:
            continue
        numba.set_num_threads(threads)
        try:
            for _ in range(2 if threads == 1 else 25):
                p = MatGF2(a).mat_mul(MatGF2(b))
                ctx.check(np.array_equal(p, want), "product-threads", f"mat_mul {a.shape} x {b.shape} with {threads} threads")
                ctx.distinct("thread_counts", threads)
        finally:
            numba.set_num_threads(top)
    ctx.count("large")
    rs = rows(a)
    red, piv = echelon(rs, l)
    ctx.check(rows(MatGF2(a).row_reduction()) == red and int(MatGF2(a).rank()) == len(piv), "large", "row reduction of a big matrix")
    ctx.nontrivial(a.tobytes())


def refusals(ctx, rng, i):
    a = MatGF2(rng.integers(0, 2, (int(rng.integers(1, 5)), int(rng.integers(1, 5)))))
    k = a.shape[1] + int(rng.integers(1, 4))
    for other in (MatGF2(np.ones((k, 2))), MatGF2(np.ones(a.shape[1])), MatGF2(np.ones((1, a.shape[1], 2)))):
        try:
            a.mat_mul(other)
        except ValueError:
            ctx.count("refused")
        else:
            ctx.fail("not-refused", f"product of shapes {a.shape} and {other.shape}")
    try:
        MatGF2(np.ones(a.shape[0])).mat_mul(a)
    except ValueError:
        ctx.count("refused")
    else:
        ctx.fail("not-refused", "product of a vector")
    ctx.nontrivial(bytes(np.asarray(a)))


FAMILIES = [
    Family("matrices", matrices, 200, 8000),
    Family("medium", medium, 150, 6000),
    Family("small", small, 512, 512, exhaustive=True),
    Family("bounds", checked, 40, 1000),
    Family("threads", large, 48, 500),
    Family("refusals", refusals, 20, 100),
]
