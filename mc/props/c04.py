"""C04: small dense linear algebra against exact rational arithmetic."""
import itertools
import math
from fractions import Fraction as Fr

from ..core import Space, Violation, need, expect, attempt, close, same, TRIVIAL
import fluids.numerics as fn
import fluids.numerics.arrays as fa

RULE = ("every matrix of the stated entry alphabets and dimensions (all zero / sign / pivot patterns), every permutation matrix "
        "with distinct weights up to 5x5, and row/column scaled families; right-hand sides from a fixed list; a case is "
        "non-trivial when the matrix is nonsingular (or exactly singular, where rejection is required)")
ASSUMPTIONS = ["numpy's SVD is trusted only as far as the defining equations of its result are checked"]


def exact_solve(A, B):
    """Gauss-Jordan over the rationals; None if singular.  Returns (det, A^-1 B)."""
    n = len(A)
    M = [[Fr(x) for x in r] + [Fr(x) for x in b] for r, b in zip(A, B)]
    det = Fr(1)
    for j in range(n):
        p = next((i for i in range(j, n) if M[i][j]), None)
        if p is None:
            return Fr(0), None
        if p != j:
            M[j], M[p] = M[p], M[j]
            det = -det
        det *= M[j][j]
        iv = 1 / M[j][j]
        M[j] = [x * iv for x in M[j]]
        for i in range(n):
            if i != j and M[i][j]:
                f = M[i][j]
                M[i] = [x - f * y for x, y in zip(M[i], M[j])]
    return det, [r[n:] for r in M]


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


RHS = {1: [[3.0]], 2: [[1.0, -2.0], [0.0, 5.0]], 3: [[1.0, -2.0, 3.0], [0.0, 0.0, 7.0]], 4: [[1.0, -2.0, 3.0, 0.5], [0.0, 1.0, 0.0, 0.0]],
       5: [[1.0, -2.0, 3.0, 0.5, 7.0]], 6: [[1.0, -2.0, 3.0, 0.5, 7.0, -4.0]]}


def one(A, exact_pivots, heavy=True):
    n = len(A)
    A = [[float(x) for x in r] for r in A]
    det, inv = exact_solve(A, eye(n))
    keep = [list(r) for r in A]
    if inv is None:
        if exact_pivots and n >= 1:
            for f, args in ((fa.solve, (A, RHS[n][0])), (fa.inv, (A,)), (fa.lu, (A,))):
                ok, v = attempt(f, *args)
                need(not ok, "%s of the singular matrix %r returned %r" % (f.__name__, A, v))
        if n >= 1:
            got = fa.det(A)
            sc = math.prod(max(1e-300, math.fsum(map(abs, r))) for r in A)
            need(abs(got) <= 1e-12 * sc, "det%r = %r, exact 0" % (A, got))
        return "!singular"
    na = max(sum(abs(Fr(x)) for x in r) for r in A)
    ni = max(sum(abs(x) for x in r) for r in inv)
    cond = float(na * ni)
    if cond > 1e9:
        return TRIVIAL
    tol = 1e-13 * max(cond, 10.0)
    out = []
    if n >= 1:
        got = fa.det(A)
        sc = math.prod(max(1e-300, math.fsum(map(abs, r))) for r in A)
        need(abs(Fr(got) - det) <= Fr(1e-12) * Fr(sc), lambda: "det%r = %r, exact %r" % (A, got, float(det)))
        out.append(got)
    gi = fa.inv(A)
    for i in range(n):
        for j in range(n):
            need(abs(gi[i][j] - float(inv[i][j])) <= tol * float(ni), lambda: "inv%r[%d][%d] = %r, exact %r" % (A, i, j, gi[i][j], float(inv[i][j])))
    need(A == keep, "inv changed its argument %r" % (keep,))
    if n >= 1:
        for b in RHS[n]:
            b0 = list(b)
            x = [float(sum(inv[i][j] * Fr(b[j]) for j in range(n))) for i in range(n)]
            nx = max(map(abs, x)) or 1.0
            nb = max(map(abs, b))
            fs = [fa.solve, fa.solve_LU_decomposition] + ([lambda M, v: list(fn.solve_2_direct(M, v))] if n == 2 else []) + (
                [lambda M, v: list(fn.solve_3_direct(M, v))] if n == 3 else []) + ([lambda M, v: list(fn.solve_4_direct(M, v))] if n == 4 else [])
            for k, f in enumerate(fs):
                g = f(A, b)
                need(len(g) == n and all(abs(p - q) <= tol * float(ni) * nb for p, q in zip(g, x)),
                     lambda: "solver %d of %r, %r gives %r, exact %r" % (k, A, b, g, x))
                need(A == keep and b == b0, "solve changed its arguments %r" % (keep,))
            out.append(x)
        if heavy:
            P, L, U = fa.lu(A)
            need(A == keep, "lu changed its argument")
            for i in range(n):
                need(sorted(P[i]) == [0.0] * (n - 1) + [1.0], "lu: P is not a permutation: %r" % (P,))
                need(L[i][i] == 1.0 and all(L[i][j] == 0 for j in range(i + 1, n)) and all(U[i][j] == 0 for j in range(i)),
                     "lu: L, U not triangular for %r" % (A,))
                need(all(abs(L[i][j]) <= 1 + 1e-12 for j in range(n)), "lu: multiplier above one (no partial pivoting) for %r: %r" % (A, L))
            PA = [[sum(P[i][k] * A[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
            LU = [[sum(L[i][k] * U[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
            mx = max(abs(x) for r in A for x in r)
            need(all(abs(PA[i][j] - LU[i][j]) <= 1e-12 * n * mx for i in range(n) for j in range(n)), "lu%r: P A != L U" % (A,))
    return out


def matrices(name, n, alphabet, exact, heavy=True, sub=None, scales=((1.0,),)):
    def cases():
        for m in itertools.product(alphabet, repeat=n * n):
            if sub and not sub(m):
                continue
            for s in scales:
                yield m, s

    def run(c):
        m, s = c
        A = [[m[i * n + j] * s[i % len(s)] for j in range(n)] for i in range(n)]
        return one(A, exact and s == (1.0,) and all(abs(x) <= 2 for x in m), heavy)
    return Space(name, cases, run, key=lambda c: repr(c), rule="all %dx%d over %r" % (n, n, alphabet))


PRIMES = [2.0, 3.0, 5.0, 7.0, 11.0, 13.0]


def permutations(nmax):
    """Weighted permutation matrices: each exercises a single term of the determinant / one pivot pattern; plus the
    same with one extra entry."""
    def cases():
        for n in range(2, nmax + 1):
            for p in itertools.permutations(range(n)):
                yield n, p, None
                if n <= 5:
                    for e in range(n * n):
                        yield n, p, e

    def run(c):
        n, p, e = c
        A = [[0.0] * n for _ in range(n)]
        for i, j in enumerate(p):
            A[i][j] = PRIMES[i] * (-1 if i == 2 else 1)
        if e is not None:
            A[e // n][e % n] += 1.0
        return one(A, False)
    return Space("weighted permutation matrices", cases, run, key=repr)


def triangular():
    """All 4x4/5x5 products L*U of unit bidiagonal-pattern factors, row-permuted: pivoting at every position."""
    def cases():
        for n in (4, 5, 6):
            for bits in itertools.product((0, 1), repeat=min(n * (n - 1) // 2, 10)):
                for p in (tuple(range(n)), tuple(reversed(range(n))), tuple(range(1, n)) + (0,)):
                    yield n, bits, p

    def run(c):
        n, bits, p = c
        L = [[0.0] * n for _ in range(n)]
        k = 0
        for i in range(n):
            L[i][i] = 1.0
            for j in range(i):
                L[i][j] = 3.0 * bits[k % len(bits)] - 1.0
                k += 1
        U = [[L[j][i] * (2.0 if i == j else 1.0) for j in range(n)] for i in range(n)]
        A = [[sum(L[i][k] * U[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
        A = [A[i] for i in p]
        return one(A, False)
    return Space("permuted LU products", cases, run, key=repr)


def tridiag(tier):
    vals = (-1.0, 0.0, 2.0)

    def cases():
        for n in (1, 2, 3, 4):
            for off in itertools.product(vals, repeat=2 * (n - 1)):
                for diag in itertools.product((4.5, 5.0, -6.0), repeat=n):
                    yield n, off, diag
        if tier == "thorough":
            for off in itertools.product(vals, repeat=8):
                yield 5, off, (4.5, 5.0, -6.0, 7.0, 4.25)

    def run(c):
        n, off, diag = c
        a, cc, b = list(off[:n - 1]), list(off[n - 1:]), list(diag)
        d = [1.0, -2.0, 3.0, 0.5, 7.0][:n]
        A = fa.tridiagonals_as_array(a, b, cc)
        want = [[b[i] if i == j else a[j] if i == j + 1 else cc[i] if j == i + 1 else 0.0 for j in range(n)] for i in range(n)]
        need(A == want, "tridiagonals_as_array(%r, %r, %r) = %r" % (a, b, cc, A))
        back = fa.array_as_tridiagonals(A)
        need(tuple(map(list, back)) == (a, b, cc), "array_as_tridiagonals(%r) = %r" % (A, back))
        keep = (list(a), list(b), list(cc), list(d))
        x = fa.solve_tridiagonal(a, b, cc, d)
        need((a, b, cc, d) == keep, "solve_tridiagonal changed its arguments")
        det, sol = exact_solve(A, [[v] for v in d])
        return expect(list(x), [float(v[0]) for v in sol], 1e-12, 1e-13, "solve_tridiagonal(%r,%r,%r,%r)" % (a, b, cc, d))
    return Space("tridiagonal systems", cases, run, key=repr)


def algebra():
    """Rectangular helpers on every shape up to 3x3 with distinct entries."""
    def mk(m, n, k):
        return [[float(((i * 7 + j * 3 + k * 5) % 11) - 4) + 0.5 * k for j in range(n)] for i in range(m)]

    def cases():
        for m, n, p in itertools.product((1, 2, 3), repeat=3):
            for k in range(4):
                yield m, n, p, k

    def run(c):
        m, n, p, k = c
        A, B, C = mk(m, n, k), mk(n, p, k + 1), mk(m, n, k + 2)
        v = [float(i - 1.5) for i in range(n)]
        keep = [[list(r) for r in X] for X in (A, B, C)]
        out = []
        expect(fa.transpose(A), [[A[i][j] for i in range(m)] for j in range(n)], what="transpose")
        out.append(expect(fa.matrix_multiply(A, B), [[sum(A[i][q] * B[q][j] for q in range(n)) for j in range(p)] for i in range(m)], 1e-12,
                          1e-12, "matrix_multiply(%r,%r)" % (A, B)))
        out.append(expect(fa.matrix_vector_dot(A, v), [sum(A[i][q] * v[q] for q in range(n)) for i in range(m)], 1e-12, 1e-12, "matrix_vector_dot"))
        expect(fa.dot_product(A[0], v), sum(x * y for x, y in zip(A[0], v)), 1e-12, 1e-12, "dot_product")
        expect(fa.sum_matrix_rows(A), [math.fsum(r) for r in A], 1e-12, 1e-12, "sum_matrix_rows")
        expect(fa.sum_matrix_cols(A), [math.fsum(r[j] for r in A) for j in range(n)], 1e-12, 1e-12, "sum_matrix_cols")
        expect(fa.scalar_add_matrices(A, C), [[x + y for x, y in zip(a, b)] for a, b in zip(A, C)], 1e-12, 0, "scalar_add_matrices")
        expect(fa.scalar_subtract_matrices(A, C), [[x - y for x, y in zip(a, b)] for a, b in zip(A, C)], 1e-12, 0, "scalar_subtract_matrices")
        expect(fa.scalar_multiply_matrix(-2.5, A), [[-2.5 * x for x in a] for a in A], 1e-12, 0, "scalar_multiply_matrix")
        expect(fa.scalar_divide_matrix(-2.5, A), [[x / -2.5 for x in a] for a in A], 1e-12, 0, "scalar_divide_matrix")
        expect(fa.norm2(A[0]), math.sqrt(math.fsum(x * x for x in A[0])), 1e-12, 0, "norm2")
        expect(tuple(fa.shape(A)), (m, n), what="shape")
        expect(tuple(fa.shape([A, A])), (2, m, n), what="shape")
        expect(fa.stack_vectors(A), A, what="stack_vectors")
        S = fa.stack_vectors(A)
        S[0][0] = 99.0
        if m == n:
            for r in range(1, n + 1):
                for sub in itertools.permutations(range(n), r):
                    expect(fa.subset_matrix(A, list(sub)), [[A[i][j] for j in sub] for i in sub], what="subset_matrix")
            for s0, s1, s2 in itertools.product(range(n), range(1, n + 1), (1, 2)):
                expect(fa.subset_matrix(A, slice(s0, s1, s2)), [[A[i][j] for j in range(s0, s1, s2)] for i in range(s0, s1, s2)], what="subset_matrix(slice)")
        need([A, B, C] == keep, "an array helper changed its arguments %r" % (c,))
        for bad in ((fa.matrix_multiply, (A, mk(n + 1, p, 0))), (fa.matrix_vector_dot, (A, v + [1.0])), (fa.dot_product, (v, v + [1.0])),
                    (fa.scalar_add_matrices, (A, mk(m + 1, n, 0))), (fa.scalar_add_matrices, (A, mk(m, n + 1, 0))),
                    (fa.scalar_subtract_matrices, (A, mk(m + 1, n, 0))), (fa.scalar_subtract_matrices, (A, mk(m, n + 1, 0))),
                    (fa.scalar_divide_matrix, (0.0, A)), (fa.sum_matrix_rows, ([],)), (fa.sum_matrix_cols, ([[]],))):
            ok, g = attempt(bad[0], *bad[1])
            need(not ok, "%s accepted mismatched arguments: %r" % (bad[0].__name__, g))
        return out
    return Space("matrix algebra on all shapes", cases, run, key=repr)


def sorting():
    def cases():
        for n in range(0, 6):
            yield from itertools.product((0, 1, 2) if n > 3 else (-1.5, 0.0, 1.0, 2.0), repeat=n)

    def run(c):
        a = list(c)
        idx = fa.argsort1d(a)
        need(sorted(idx) == list(range(len(a))) and all(a[i] <= a[j] for i, j in zip(idx, idx[1:])), "argsort1d(%r) = %r" % (a, idx))
        need(all(i < j for i, j in zip(idx, idx[1:]) if a[i] == a[j]), "argsort1d(%r) = %r is not stable" % (a, idx))
        tags = ["t%d" % i for i in range(len(a))]
        s1, s2 = fa.sort_paired_lists(a, tags)
        need(list(s1) == sorted(a) and list(s2) == [tags[i] for i in idx], "sort_paired_lists(%r)" % (a,))
        need(a == list(c), "argument changed")
        ok, _ = attempt(fa.sort_paired_lists, a, tags + ["x"])
        need(not ok, "sort_paired_lists accepted unequal lengths")
        return idx
    return Space("sorting helpers", cases, run, key=repr)


def eyes():
    def run(n):
        for dt in (float, int):
            e = fa.eye(n, dt)
            need(e == eye(n) and all(type(x) is dt for r in e for x in r), "eye(%d)" % n)
            if n > 1:
                e[0][0] = 9
                need(e[1][0] == 0, "eye rows are shared")
        return n
    return Space("identity", lambda: [1, 2, 3, 5], run)


def rankexact(A):
    m, n = len(A), len(A[0])
    M = [[Fr(x) for x in r] for r in A]
    r = 0
    for j in range(n):
        p = next((i for i in range(r, m) if M[i][j]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, m):
            f = M[i][j] / M[r][j]
            M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        r += 1
    return r


def lsq(tier):
    """Least squares and null space: all small integer matrices of each shape."""
    def cases():
        for m, n in itertools.product((1, 2, 3), repeat=2):
            al = (-1, 0, 1) if m * n > 4 else (-2, -1, 0, 1, 3)
            if m * n == 9:
                al = (0, 1) if tier != "thorough" else (-1, 0, 1)
            for mm in itertools.product(al, repeat=m * n):
                yield m, n, mm

    def run(c):
        m, n, mm = c
        A = [[float(mm[i * n + j]) for j in range(n)] for i in range(m)]
        r = rankexact(A)
        b = [1.0, -2.0, 0.5][:m]
        x, res, rank, s = fa.gelsd(A, b)
        need(rank == r, "gelsd rank of %r is %r, exact %d" % (A, rank, r))
        need(len(s) == min(m, n) and all(p >= q >= 0 for p, q in zip(s, s[1:])), "singular values %r" % (s,))
        need(close(math.fsum(v * v for v in s), math.fsum(v * v for q in A for v in q), 1e-11, 1e-12), "singular values %r of %r" % (s, A))
        d = [sum(A[i][j] * x[j] for j in range(n)) - b[i] for i in range(m)]
        need(all(abs(sum(A[i][j] * d[i] for i in range(m))) < 1e-11 for j in range(n)), "gelsd(%r, %r) = %r does not minimize" % (A, b, x))
        Z = fa.null_space(A)
        k = n - r
        need(len(Z) == n and all(len(z) == k for z in Z), "null_space(%r) has shape %r, nullity %d" % (A, Z, k))
        for q in range(k):
            need(all(abs(sum(A[i][j] * Z[j][q] for j in range(n))) < 1e-12 for i in range(m)), "null_space(%r): A z != 0" % (A,))
            need(abs(sum(x[j] * Z[j][q] for j in range(n))) < 1e-11, "gelsd(%r) is not the minimum-norm solution" % (A,))
            for p in range(k):
                need(abs(sum(Z[j][q] * Z[j][p] for j in range(n)) - (p == q)) < 1e-12, "null_space(%r) is not orthonormal" % (A,))
        if m > n and r == n:
            need(close(res, math.fsum(v * v for v in d), 1e-10, 1e-12), "gelsd residual %r" % (res,))
        return [round(v, 9) + 0.0 for v in x]
    return Space("least squares and null space", cases, run, key=repr)


SC = ((1.0,), (1e-5, 1e-4, 1e-3), (1e6, 1.0, 1e-6))


def spaces(tier):
    t = tier == "thorough"
    out = [matrices("1x1", 1, (-3, 0, 1, 2), True), eyes(), matrices("2x2", 2, (-3, -2, -1, 0, 1, 2, 5) if t else (-2, -1, 0, 1, 3), True, scales=SC),
           matrices("3x3 signs", 3, (-1, 0, 1), True, scales=SC[:1] if not t else SC),
           matrices("3x3 scaled", 3, (0, 1, 4), False, sub=lambda m: m[0] != 1, scales=SC[1:]),
           matrices("4x4 binary", 4, (0, 1), False, sub=None if t else (lambda m: sum(m) in (6, 7, 8) and m[0] == 0)),
           permutations(6 if t else 5), triangular(), tridiag(tier), algebra(), sorting(), lsq(tier)]
    if t:
        out.append(matrices("3x3 wide", 3, (-2, 0, 1, 3), False))
    return out
