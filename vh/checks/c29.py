"""C29: GF(2) linear algebra against an independent implementation on Python integers.

All matrices up to 3x3 (and every right-hand side) are enumerated, larger ones (up to 14x14 dense, sparse, structured or
rank-deficient, and a few up to 70 columns) are generated in several memory layouts.  Row-echelon forms are judged by
their definition (shape, equal row space, uniqueness of the reduced form), the other operations by their defining
equations, including non-existence, and inputs must stay unchanged unless in-place work is asked for.
"""
from __future__ import annotations

import itertools

import numpy as np
from hypothesis import strategies as st

from graphix._linalg import MatGF2, solve_f2_linear_system
from vh.core import Info, Sub, check
from vh.util import raises


# ---------------------------------------------------------------- reference on integers (bit j of a row = column j from the left)

def rows_of(m):  # noqa: ANN001, ANN201
    m = np.asarray(m)
    n = m.shape[1]
    return [sum(int(m[i, j]) << (n - 1 - j) for j in range(n)) for i in range(m.shape[0])]


def r_rref(rows, n, ncols=None):  # noqa: ANN001, ANN201
    """Reduced form over the first ncols columns, and the rank there."""
    rows = list(rows)
    p = 0
    for j in range(n if ncols is None else ncols):
        b = 1 << (n - 1 - j)
        piv = next((i for i in range(p, len(rows)) if rows[i] & b), None)
        if piv is None:
            continue
        rows[p], rows[piv] = rows[piv], rows[p]
        for i in range(len(rows)):
            if i != p and rows[i] & b:
                rows[i] ^= rows[p]
        p += 1
    return rows, p


def same_space(a, b, n):  # noqa: ANN001, ANN201
    return [x for x in r_rref(a, n)[0] if x] == [x for x in r_rref(b, n)[0] if x]


def is_ref(m, ncols, reduced):  # noqa: ANN001, ANN201
    last = -1
    seen_zero = False
    for i, row in enumerate(np.asarray(m)[:, :ncols]):
        nz = np.flatnonzero(row)
        if len(nz) == 0:
            seen_zero = True
            continue
        if seen_zero or nz[0] <= last:
            return False
        last = nz[0]
        col = np.asarray(m)[:, last]
        if col[i + 1:].any() or (reduced and col[:i].any()):
            return False
    return True


LAYOUTS = ["plain", "fortran", "strided", "reversed", "view", "bool", "int", "list", "nocopy", "nocopylist"]


def make(m, layout):  # noqa: ANN001, ANN201
    if layout == "plain":
        return MatGF2(m)
    if layout == "fortran":
        return MatGF2(np.asfortranarray(m))
    if layout == "strided":
        big = np.ones((2 * m.shape[0], 3 * m.shape[1]), dtype=np.uint8)
        big[::2, ::3] = m
        return MatGF2(big)[::2, ::3]
    if layout == "reversed":
        return MatGF2(np.ascontiguousarray(m[::-1, ::-1]))[::-1, ::-1]
    if layout == "view":
        return m.copy().view(MatGF2)
    if layout == "bool":
        return MatGF2(m.astype(bool))
    if layout == "int":
        return MatGF2(m.astype(np.int64))
    if layout == "nocopy":
        return MatGF2(m.copy(), copy=False)
    if not m.size:
        return MatGF2(m)
    return MatGF2(m.tolist(), copy=layout != "nocopylist")


def parse(case):  # noqa: ANN001, ANN201
    m = np.zeros((case["m"], case["n"]), dtype=np.uint8)
    for i, r in enumerate(case["rows"]):
        for j in range(case["n"]):
            m[i, j] = (int(r) >> (case["n"] - 1 - j)) & 1
    return m


def gf(x):  # noqa: ANN001, ANN201
    return np.asarray(x).astype(np.int64) % 2


def oracle_matrix(case, info: Info) -> None:  # noqa: ANN001, C901, PLR0915
    m = parse(case)
    k, n = m.shape
    rows = rows_of(m)
    lay = case["lay"]
    mat = make(m, lay)
    check(isinstance(mat, MatGF2) and mat.shape == m.shape and np.array_equal(mat, m), f"MatGF2 of {m.tolist()} ({lay}) is {np.asarray(mat).tolist()}")
    red, rank = r_rref(rows, n)
    text = f"{m.tolist()} ({lay})"

    def unchanged(what: str) -> None:
        check(np.array_equal(mat, m), lambda: f"{what} changed its argument {text}")

    check(int(mat.rank()) == rank, lambda: f"rank of {text}: {mat.rank()} instead of {rank}")
    unchanged("rank")
    # echelon forms
    for full in (True, False):
        for nc in {None, case["nc"] % (n + 1)}:
            fn = "row_reduction" if full else "gauss_elimination"
            kw = {} if nc is None else {"ncols": nc}
            r = getattr(mat, fn)(**kw)
            unchanged(fn)
            check(isinstance(r, MatGF2) and r.shape == m.shape, f"{fn}{kw} of {text}")
            lim = n if nc is None else nc
            check(is_ref(r, lim, full), lambda: f"{fn}{kw} of {text} is {np.asarray(r).tolist()}, not in {'reduced ' if full else ''}echelon form over {lim} columns")  # noqa: B023
            check(same_space(rows_of(r), rows, n), lambda: f"{fn}{kw} of {text} is {np.asarray(r).tolist()}: another row space")  # noqa: B023
            if full and nc is None:
                check(rows_of(r) == red, f"{fn} of {text} is {np.asarray(r).tolist()}")
            w = make(m, lay)
            r2 = getattr(w, fn)(copy=False, **kw)
            check(np.array_equal(r2, r), f"{fn}(copy=False) of {text} differs from the copy")
            check(np.array_equal(w, r), f"{fn}(copy=False) of {text} does not modify the matrix")
    # null space
    ns = mat.null_space()
    unchanged("null_space")
    check(ns.shape == (n - rank, n), f"null space of {text}: shape {ns.shape}, dimension {n - rank} expected")
    check(not (gf(m) @ gf(ns).T % 2).any(), f"null space of {text}: {np.asarray(ns).tolist()}")
    check(r_rref(rows_of(ns), n)[1] == n - rank, f"null space of {text}: dependent vectors {np.asarray(ns).tolist()}")
    # right inverse
    ri = mat.right_inverse()
    unchanged("right_inverse")
    if rank == k:
        check(ri is not None, f"{text} has a right inverse, none found")
        check(ri.shape == (n, k) and np.array_equal(gf(m) @ gf(ri) % 2, np.eye(k, dtype=int)), f"right inverse of {text}: {np.asarray(ri).tolist()}")
        info.label("right inverse")
    else:
        check(ri is None, f"{text} has no right inverse, got {None if ri is None else np.asarray(ri).tolist()}")
        info.label("no right inverse")
    # linear system in echelon form with a consistent right-hand side
    x0 = np.array([(case["x"] >> j) & 1 for j in range(n)], dtype=np.uint8)
    for full in (True, False):
        e = mat.row_reduction() if full else mat.gauss_elimination()
        b = MatGF2(gf(e) @ x0 % 2) if k else MatGF2(np.zeros(0, dtype=np.uint8))
        e0, b0 = np.array(e), np.array(b)
        x = solve_f2_linear_system(e, b)
        check(x.shape == (n,) and np.array_equal(gf(e0) @ gf(x) % 2, gf(b0)), lambda: f"system {e0.tolist()} x = {b0.tolist()}: {np.asarray(x).tolist()} is no solution")  # noqa: B023
        check(np.array_equal(e, e0) and np.array_equal(b, b0), "solving changed the system")
    info.label(lay, "full rank" if rank == min(k, n) else "rank deficient", "wide" if n > k else "tall" if k > n else "square")
    if not m.size:
        info.label("empty")
    info.nt(0 < rank and m.size >= 4)


@st.composite
def strat_matrix(draw, big=False):  # noqa: ANN001, ANN201
    k = draw(st.integers(0, 24 if big else 12))
    n = draw(st.integers(0, 70 if big else 12))
    kind = draw(st.sampled_from(["dense", "dense", "sparse", "lowrank", "upper", "dup"]))
    row = st.integers(0, 2**n - 1)
    if kind == "sparse":
        row = st.lists(st.integers(0, max(n - 1, 0)), max_size=2).map(lambda l: sum(1 << j for j in set(l)) if n else 0)
    rows = draw(st.lists(row, min_size=k, max_size=k))
    if kind == "lowrank" and k:
        base = rows[: max(1, k // 2)]
        sel = draw(st.lists(st.integers(0, 2 ** len(base) - 1), min_size=k, max_size=k))
        out = []
        for s in sel:
            acc = 0
            for i, b in enumerate(base):
                if (s >> i) & 1:
                    acc ^= b
            out.append(acc)
        rows = out
    elif kind == "upper":
        rows = [(r & ((1 << max(n - i, 0)) - 1)) | (1 << (n - 1 - i) if n - 1 - i >= 0 else 0) for i, r in enumerate(rows)]
    elif kind == "dup" and k > 1:
        rows[-1] = rows[0]
    return {"m": k, "n": n, "rows": [str(r) for r in rows], "lay": draw(st.sampled_from(LAYOUTS)), "nc": draw(st.integers(0, n)), "x": draw(st.integers(0, 2**n - 1)) if n < 50 else draw(st.integers(0, 2**40))}


def enum_small(tier):  # noqa: ANN001, ANN201
    top = 9 if tier == "quick" else 12
    for k, n in itertools.product(range(5), repeat=2):
        if k * n > top:
            continue
        for bits in range(2 ** (k * n)):
            rows = [str((bits >> (i * n)) & (2**n - 1)) for i in range(k)]
            yield {"m": k, "n": n, "rows": rows, "lay": LAYOUTS[bits % len(LAYOUTS)], "nc": bits % (n + 1), "x": (bits * 7 + 3) % 2**n}


# ---------------------------------------------------------------- products

@st.composite
def strat_product(draw):  # noqa: ANN001, ANN201
    k, l, n = (draw(st.integers(0, 9)) for _ in range(3))
    return {"a": {"m": k, "n": l, "rows": [str(x) for x in draw(st.lists(st.integers(0, 2**l - 1), min_size=k, max_size=k))]},
            "b": {"m": l, "n": n, "rows": [str(x) for x in draw(st.lists(st.integers(0, 2**n - 1), min_size=l, max_size=l))]},
            "la": draw(st.sampled_from(LAYOUTS)), "lb": draw(st.sampled_from(LAYOUTS)), "raw": draw(st.booleans()), "off": draw(st.integers(1, 3))}


def oracle_product(case, info: Info) -> None:  # noqa: ANN001
    a, b = parse(case["a"]), parse(case["b"])
    ma, mb = make(a, case["la"]), b.copy() if case["raw"] else make(b, case["lb"])
    r = ma.mat_mul(mb)
    check(isinstance(r, MatGF2) and r.shape == (a.shape[0], b.shape[1]) and np.array_equal(r, gf(a) @ gf(b) % 2), lambda: f"{a.tolist()} @ {b.tolist()} = {np.asarray(r).tolist()}")
    check(np.array_equal(ma, a) and np.array_equal(mb, b), "the product changed a factor")
    bad = np.zeros((a.shape[1] + case["off"], 2), dtype=np.uint8)
    check(raises(ValueError, lambda: ma.mat_mul(MatGF2(bad))) is not None, f"product of shapes {a.shape} and {bad.shape} accepted")
    check(raises(ValueError, lambda: ma.mat_mul(MatGF2(np.zeros(a.shape[1], dtype=np.uint8)))) is not None, "product with a one-dimensional array accepted")
    src = a.copy()
    c = MatGF2(src)
    if c.size:
        c[0, 0] ^= 1
        check(np.array_equal(src, a), "a matrix shares memory with the data it was copied from")
        v = MatGF2(src, copy=False)
        v[0, 0] ^= 1
        check(src[0, 0] == 1 - a[0, 0], "copy=False copied an array of the right type")
    info.nt(bool(a.any() and b.any()))


SUBS = [
    Sub("small", None, oracle_matrix, 1, 1, 4, "rank at least 1 and at least four entries", enumerate=enum_small),
    Sub("random", strat_matrix, oracle_matrix, 1500, 40000, 4, "rank at least 1 and at least four entries"),
    Sub("wide", lambda: strat_matrix(big=True), oracle_matrix, 200, 6000, 3, "rank at least 1 and at least four entries"),
    Sub("product", strat_product, oracle_product, 800, 20000, 2, "both factors non-zero"),
]
