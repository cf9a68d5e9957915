import sys
from math import sqrt
REQUIRE_DEPENDENCIES = False
if not REQUIRE_DEPENDENCIES:
    IS_PYPY = True
else:
    try:
        IS_PYPY = 'PyPy' in sys.version
    except AttributeError:
        IS_PYPY = False
__all__ = ['argsort1d', 'array_as_tridiagonals', 'det', 'dot_product', 'eye', 'gelsd', 'inv', 'lu', 'matrix_multiply', 'matrix_vector_dot', 'norm2', 'null_space', 'scalar_add_matrices', 'scalar_divide_matrix', 'scalar_multiply_matrix', 'scalar_subtract_matrices', 'shape', 'solve', 'solve_tridiagonal', 'sort_paired_lists', 'stack_vectors', 'subset_matrix', 'sum_matrix_cols', 'sum_matrix_rows', 'transpose']
primitive_containers = frozenset([list, tuple])

def transpose(matrix):
    if not matrix:
        return []
    if not matrix[0]:
        return []
    row_length = len(matrix[0])
    if not all((len(row) == row_length for row in matrix)):
        raise ValueError('All rows must have the same length')
    return [list(i) for i in zip(*matrix)]

def det(matrix):
    size = len(matrix)
    if size == 1:
        return matrix[0][0]
    elif size == 2:
        (a, b), (c, d) = matrix
        return a * d - c * b
    elif size == 3:
        (a, b, c), (d, e, f), (g, h, i) = matrix
        return a * (e * i - h * f) - d * (b * i - h * c) + g * (b * f - e * c)
    elif size == 4:
        (a, b, c, d), (e, f, g, h), (i, j, k, l), (m, n, o, p) = matrix
        return a * f * k * p - a * f * l * o - a * g * j * p + a * g * l * n + a * h * j * o - a * h * k * n - b * e * k * p + b * e * l * o + b * g * i * p - b * g * l * m - b * h * i * o + b * h * k * m + c * e * j * p - c * e * l * n - c * f * i * p + c * f * l * m + c * h * i * n - c * h * j * m - d * e * j * o + d * e * k * n + d * f * i * o - d * f * k * m - d * g * i * n + d * g * j * m
    elif size == 5:
        (a, b, c, d, e), (f, g, h, i, j), (k, l, m, n, o), (p, q, r, s, t), (u, v, w, x, y) = matrix
        x0 = s * y
        x1 = a * g * m
        x2 = t * w
        x3 = a * g * n
        x4 = r * x
        x5 = a * g * o
        x6 = t * x
        x7 = a * h * l
        x8 = q * y
        x9 = a * h * n
        x10 = s * v
        x11 = a * h * o
        x12 = r * y
        x13 = a * i * l
        x14 = t * v
        x15 = a * i * m
        x16 = q * w
        x17 = a * i * o
        x18 = s * w
        x19 = a * j * l
        x20 = q * x
        x21 = a * j * m
        x22 = r * v
        x23 = a * j * n
        x24 = b * f * m
        x25 = b * f * n
        x26 = b * f * o
        x27 = b * h * k
        x28 = t * u
        x29 = b * h * n
        x30 = p * x
        x31 = b * h * o
        x32 = b * i * k
        x33 = p * y
        x34 = b * i * m
        x35 = r * u
        x36 = b * i * o
        x37 = b * j * k
        x38 = s * u
        x39 = b * j * m
        x40 = p * w
        x41 = b * j * n
        x42 = c * f * l
        x43 = c * f * n
        x44 = c * f * o
        x45 = c * g * k
        x46 = c * g * n
        x47 = c * g * o
        x48 = c * i * k
        x49 = c * i * l
        x50 = p * v
        x51 = c * i * o
        x52 = c * j * k
        x53 = c * j * l
        x54 = q * u
        x55 = c * j * n
        x56 = d * f * l
        x57 = d * f * m
        x58 = d * f * o
        x59 = d * g * k
        x60 = d * g * m
        x61 = d * g * o
        x62 = d * h * k
        x63 = d * h * l
        x64 = d * h * o
        x65 = d * j * k
        x66 = d * j * l
        x67 = d * j * m
        x68 = e * f * l
        x69 = e * f * m
        x70 = e * f * n
        x71 = e * g * k
        x72 = e * g * m
        x73 = e * g * n
        x74 = e * h * k
        x75 = e * h * l
        x76 = e * h * n
        x77 = e * i * k
        x78 = e * i * l
        x79 = e * i * m
        return x0 * x1 - x0 * x24 + x0 * x27 + x0 * x42 - x0 * x45 - x0 * x7 - x1 * x6 + x10 * x11 - x10 * x21 - x10 * x44 + x10 * x52 + x10 * x69 - x10 * x74 - x11 * x20 + x12 * x13 + x12 * x25 - x12 * x3 - x12 * x32 - x12 * x56 + x12 * x59 - x13 * x2 + x14 * x15 + x14 * x43 - x14 * x48 - x14 * x57 + x14 * x62 - x14 * x9 - x15 * x8 + x16 * x17 - x16 * x23 - x16 * x58 + x16 * x65 + x16 * x70 - x16 * x77 - x17 * x22 + x18 * x19 + x18 * x26 - x18 * x37 - x18 * x5 - x18 * x68 + x18 * x71 - x19 * x4 - x2 * x25 + x2 * x3 + x2 * x32 + x2 * x56 - x2 * x59 + x20 * x21 + x20 * x44 - x20 * x52 - x20 * x69 + x20 * x74 + x22 * x23 + x22 * x58 - x22 * x65 - x22 * x70 + x22 * x77 + x24 * x6 - x26 * x4 - x27 * x6 + x28 * x29 - x28 * x34 - x28 * x46 + x28 * x49 + x28 * x60 - x28 * x63 - x29 * x33 + x30 * x31 - x30 * x39 - x30 * x47 + x30 * x53 + x30 * x72 - x30 * x75 - x31 * x38 + x33 * x34 + x33 * x46 - x33 * x49 - x33 * x60 + x33 * x63 + x35 * x36 - x35 * x41 - x35 * x61 + x35 * x66 + x35 * x73 - x35 * x78 - x36 * x40 + x37 * x4 + x38 * x39 + x38 * x47 - x38 * x53 - x38 * x72 + x38 * x75 + x4 * x5 + x4 * x68 - x4 * x71 + x40 * x41 + x40 * x61 - x40 * x66 - x40 * x73 + x40 * x78 - x42 * x6 - x43 * x8 + x45 * x6 + x48 * x8 + x50 * x51 - x50 * x55 - x50 * x64 + x50 * x67 + x50 * x76 - x50 * x79 - x51 * x54 + x54 * x55 + x54 * x64 - x54 * x67 - x54 * x76 + x54 * x79 + x57 * x8 + x6 * x7 - x62 * x8 + x8 * x9
    else:
        import numpy as np
        return float(np.linalg.det(matrix))

def inv(matrix):
    size = len(matrix)
    if size == 1:
        return [[1.0 / matrix[0][0]]]
    elif size == 2:
        (m_00, m_01), (m_10, m_11) = matrix
        x0 = m_00 * m_11 - m_01 * m_10
        det = x0
        if abs(det) <= 1e-07:
            return inv_lu(matrix)
        x1 = 1.0 / x0
        return [[m_11 * x1, -m_01 * x1], [-m_10 * x1, m_00 * x1]]
    elif size == 3:
        (m_00, m_01, m_02), (m_10, m_11, m_12), (m_20, m_21, m_22) = matrix
        x0 = m_11 * m_22
        x1 = m_01 * m_12
        x2 = m_02 * m_21
        x3 = m_12 * m_21
        x4 = m_01 * m_22
        x5 = m_02 * m_11
        x6 = m_00 * x0 - m_00 * x3 + m_10 * x2 - m_10 * x4 + m_20 * x1 - m_20 * x5
        det = x6
        if abs(det) <= 1e-07:
            return inv_lu(matrix)
        x7 = 1.0 / x6
        return [[x7 * (x0 - x3), -x7 * (-x2 + x4), x7 * (x1 - x5)], [-x7 * (m_10 * m_22 - m_12 * m_20), x7 * (m_00 * m_22 - m_02 * m_20), -x7 * (m_00 * m_12 - m_02 * m_10)], [x7 * (m_10 * m_21 - m_11 * m_20), -x7 * (m_00 * m_21 - m_01 * m_20), x7 * (m_00 * m_11 - m_01 * m_10)]]
    else:
        return inv_lu(matrix)

def shape(value):
    try:
        return value.shape
    except:
        pass
    dims = [len(value)]
    try:
        iter_value = value[0]
        for i in range(10):
            if type(iter_value) in primitive_containers:
                dims.append(len(iter_value))
                iter_value = iter_value[0]
            else:
                break
    except:
        pass
    return tuple(dims)

def eye(N, dtype=float):
    if not isinstance(N, int):
        raise TypeError('N must be an integer')
    if N <= 0:
        raise ValueError('N must be a positive integer')
    matrix = []
    zero, one = (dtype(0), dtype(1))
    for i in range(N):
        row = [zero] * N
        row[i] = one
        matrix.append(row)
    return matrix

def dot_product(a, b):
    if len(a) != len(b):
        raise ValueError('Vectors must have same length')
    tot = 0.0
    for i in range(len(a)):
        tot += a[i] * b[i]
    return tot

def matrix_vector_dot(matrix, vector):
    N = len(vector)
    if not all((len(row) == N for row in matrix)):
        raise ValueError('Matrix columns must match vector length')
    result = [sum((row[i] * vector[i] for i in range(N))) for row in matrix]
    return result

def matrix_multiply(A, B):
    if not A or not A[0] or (not B) or (not B[0]):
        raise ValueError('Empty matrices cannot be multiplied')
    m = len(A)
    p = len(A[0]) if m else 0
    n = len(B[0]) if B else 0
    if not all((len(row) == p for row in A)):
        raise ValueError('First matrix has irregular row lengths')
    if len(B) != p:
        raise ValueError(f'Incompatible dimensions: A is {m}x{p}, B is {len(B)}x{n}')
    if not all((len(row) == n for row in B)):
        raise ValueError('Second matrix has irregular row lengths')
    C = [[0.0] * n for _ in range(m)]
    for i in range(m):
        A_i = A[i]
        C_i = C[i]
        for j in range(n):
            tot = 0.0
            for k in range(p):
                tot += A_i[k] * B[k][j]
            C_i[j] = tot
    return C

def sum_matrix_rows(matrix):
    if not matrix or not matrix[0]:
        raise ValueError('Empty matrix')
    n = len(matrix[0])
    if not all((len(row) == n for row in matrix)):
        raise ValueError('Matrix has irregular row lengths')
    result = []
    for row in matrix:
        tot = 0.0
        for val in row:
            tot += val
        result.append(tot)
    return result

def sum_matrix_cols(matrix):
    if not matrix or not matrix[0]:
        raise ValueError('Empty matrix')
    n = len(matrix[0])
    if not all((len(row) == n for row in matrix)):
        raise ValueError('Matrix has irregular row lengths')
    result = [0.0] * n
    for row in matrix:
        for j, val in enumerate(row):
            result[j] += val
    return result

def scalar_add_matrices(A, B):
    if not A or not B or len(A) != len(B) or (len(A[0]) != len(B[0])) or (not len(A[0])):
        raise ValueError('Matrices must have the same dimensions and be non-empty')
    result = []
    for row_A, row_B in zip(A, B):
        if len(row_A) != len(row_B):
            raise ValueError('Matrices must have the same dimensions')
        result.append([a + b for a, b in zip(row_A, row_B)])
    return result

def scalar_subtract_matrices(A, B):
    if not A or not B or len(A) != len(B) or (len(A[0]) != len(B[0])) or (not len(A[0])):
        raise ValueError('Matrices must have the same dimensions and be non-empty')
    result = []
    for row_A, row_B in zip(A, B):
        if len(row_A) != len(row_B):
            raise ValueError('Matrices must have the same dimensions')
        result.append([a - b for a, b in zip(row_A, row_B)])
    return result

def scalar_multiply_matrix(scalar, matrix):
    if not matrix or not matrix[0]:
        raise ValueError('Input matrix cannot be empty')
    result = []
    for row in matrix:
        result.append([scalar * val for val in row])
    return result

def scalar_divide_matrix(scalar, matrix):
    if scalar == 0:
        raise ZeroDivisionError('Cannot divide by zero')
    if not matrix or not matrix[0]:
        raise ValueError('Input matrix cannot be empty')
    result = []
    for row in matrix:
        result.append([val / scalar for val in row])
    return result

def stack_vectors(vectors):
    if not vectors:
        return []
    return [list(v) for v in vectors]

def inplace_LU(A, ipivot):
    N = len(A)
    for j in range(N):
        for i in range(j):
            tot = A[i][j]
            for k in range(i):
                tot -= A[i][k] * A[k][j]
            A[i][j] = tot
        apiv = 0.0
        ipiv = j
        for i in range(j, N):
            tot = A[i][j]
            for k in range(j):
                tot -= A[i][k] * A[k][j]
            A[i][j] = tot
            if apiv < abs(A[i][j]):
                apiv = abs(A[i][j])
                ipiv = i
        if apiv == 0:
            raise ValueError('Singular matrix')
        ipivot[j] = ipiv
        if ipiv != j:
            for k in range(N):
                t = A[ipiv][k]
                A[ipiv][k] = A[j][k]
                A[j][k] = t
        Ajjinv = 1.0 / A[j][j]
        for i in range(j + 1, N):
            A[i][j] *= Ajjinv

def solve_from_lu(A, pivots, b):
    N = len(b)
    b = b.copy()
    for i in range(N):
        tot = b[pivots[i]]
        b[pivots[i]] = b[i]
        for j in range(i):
            tot -= A[i][j] * b[j]
        b[i] = tot
    for i in range(N - 1, -1, -1):
        tot = b[i]
        for j in range(i + 1, N):
            tot -= A[i][j] * b[j]
        b[i] = tot / A[i][i]
    return b

def solve_LU_decomposition(A, b):
    N = len(b)
    A_copy = [row.copy() for row in A]
    pivots = [0] * N
    inplace_LU(A_copy, pivots)
    return solve_from_lu(A_copy, pivots, b)

def inv_lu(a):
    N = len(a)
    A_copy = [row.copy() for row in a]
    ainv = [[0.0] * N for i in range(N)]
    pivots = [0] * N
    inplace_LU(A_copy, pivots)
    for j in range(N):
        b = [0.0] * N
        b[j] = 1.0
        b = solve_from_lu(A_copy, pivots, b)
        for i in range(N):
            ainv[i][j] = b[i]
    return ainv

def lu(A):
    N = len(A)
    A_copy = [row.copy() for row in A]
    pivots = [0] * N
    inplace_LU(A_copy, pivots)
    L = [[1.0 if i == j else 0.0 for j in range(N)] for i in range(N)]
    for i in range(N):
        for j in range(i):
            L[i][j] = A_copy[i][j]
    U = [[0.0] * N for _ in range(N)]
    for i in range(N):
        for j in range(i, N):
            U[i][j] = A_copy[i][j]
    P = [[1.0 if j == i else 0.0 for j in range(N)] for i in range(N)]
    for i, pivot in enumerate(pivots):
        if pivot != i:
            P[i], P[pivot] = (P[pivot], P[i])
    return (P, L, U)
'Script to generate solve function. Note that just like in inv the N = 4 case has too much numerical instability.\nimport sympy as sp\nfrom sympy import Matrix, Symbol, simplify, solve_linear_system\nimport re\n\ndef generate_symbolic_system(n):\n    """Generate an nxn symbolic matrix A and n-vector b"""\n    A = Matrix([[Symbol(f\'a_{i}{j}\') for j in range(n)] for i in range(n)])\n    b = Matrix([Symbol(f\'b_{i}\') for i in range(n)])\n    return A, b\n\ndef generate_cramer_solution(n):\n    """Generate symbolic solution using Cramer\'s rule for small matrices"""\n    A, b = generate_symbolic_system(n)\n    det_A = A.det()\n\n    # Solve for each variable using Cramer\'s rule\n    solutions = []\n    for i in range(n):\n        # Create matrix with i-th column replaced by b\n        A_i = A.copy()\n        A_i[:, i] = b\n        det_i = A_i.det()\n        # Store numerator only - we\'ll multiply by inv_det later\n        solutions.append(det_i)\n\n    return det_A, solutions\n\ndef generate_python_solve():\n    """Generate a unified matrix solve function with optimized 1x1, 2x2, and 3x3 cases"""\n    size_specific_code = {}\n\n    # Special case for N=1\n    size_specific_code[1] = """        # Direct solution for 1x1\n        return [b[0]/matrix[0][0]]"""\n\n    # Generate specialized code for sizes 2 and 3\n    for N in [2, 3]:\n        det, solutions = generate_cramer_solution(N)\n\n        code = []\n\n        # Unpack matrix elements\n        unpack_rows = []\n        for i in range(N):\n            row_vars = [f"a_{i}{j}" for j in range(N)]\n            unpack_rows.append("(" + ", ".join(row_vars) + ")")\n        code.append(f"        {\', \'.join(unpack_rows)} = matrix")\n\n        # Unpack b vector\n        code.append(f"        {\', \'.join(f\'b_{i}\' for i in range(N))} = b")\n\n        # Calculate determinant\n        det_expr = str(det)\n        code.append("\n        # Calculate determinant")\n        code.append(f"        det = {det_expr}")\n\n        # Check for singular matrix\n        code.append("\n        # Check for singular matrix")\n        code.append("        if abs(det) <= 1e-7:")\n        code.append("            return solve_LU_decomposition(matrix, b)")\n\n        # Calculate solution\n        code.append("\n        # Calculate solution")\n        code.append("        inv_det = 1.0/det")\n\n        # Generate solution expressions (multiply by inv_det, don\'t divide by det)\n        solution_lines = []\n        for i, sol in enumerate(solutions):\n            solution_lines.append(f"        x_{i} = ({sol}) * inv_det")\n        code.append("\n".join(solution_lines))\n\n        # Return solution\n        code.append("\n        return [" + ", ".join(f"x_{i}" for i in range(N)) + "]")\n\n        size_specific_code[N] = "\n".join(code)\n\n    # Generate the complete function\n    complete_code = [\n        "def solve(matrix, b):",\n        "    size = len(matrix)",\n        "    if size == 1:",\n        size_specific_code[1],\n        "    elif size == 2:",\n        size_specific_code[2],\n        "    elif size == 3:",\n        size_specific_code[3],\n        "    else:",\n        "        return solve_LU_decomposition(matrix, b)",\n        ""\n    ]\n\n    return "\n".join(complete_code)\n\n# Generate and print the optimized solve function\nprint(generate_python_solve())\n'

def solve(matrix, b):
    size = len(matrix)
    if size == 2:
        (a_00, a_01), (a_10, a_11) = matrix
        b_0, b_1 = b
        det = a_00 * a_11 - a_01 * a_10
        if abs(det) <= 1e-07:
            return solve_LU_decomposition(matrix, b)
        inv_det = 1.0 / det
        x_0 = (a_11 * b_0 - a_01 * b_1) * inv_det
        x_1 = (-a_10 * b_0 + a_00 * b_1) * inv_det
        return [x_0, x_1]
    elif size == 3:
        (a_00, a_01, a_02), (a_10, a_11, a_12), (a_20, a_21, a_22) = matrix
        b_0, b_1, b_2 = b
        det = a_00 * a_11 * a_22 - a_00 * a_12 * a_21 - a_01 * a_10 * a_22 + a_01 * a_12 * a_20 + a_02 * a_10 * a_21 - a_02 * a_11 * a_20
        if abs(det) <= 1e-07:
            return solve_LU_decomposition(matrix, b)
        inv_det = 1.0 / det
        x_0 = (b_0 * (a_11 * a_22 - a_12 * a_21) + b_1 * (-a_01 * a_22 + a_02 * a_21) + b_2 * (a_01 * a_12 - a_02 * a_11)) * inv_det
        x_1 = (b_0 * (-a_10 * a_22 + a_12 * a_20) + b_1 * (a_00 * a_22 - a_02 * a_20) + b_2 * (-a_00 * a_12 + a_02 * a_10)) * inv_det
        x_2 = (b_0 * (a_10 * a_21 - a_11 * a_20) + b_1 * (-a_00 * a_21 + a_01 * a_20) + b_2 * (a_00 * a_11 - a_01 * a_10)) * inv_det
        return [x_0, x_1, x_2]
    else:
        return solve_LU_decomposition(matrix, b)

def norm2(arr):
    tot = 0.0
    for i in arr:
        tot += i * i
    return sqrt(tot)

def array_as_tridiagonals(arr):
    row_last = arr[0]
    a, b, c = ([], [row_last[0]], [])
    for i in range(1, len(row_last)):
        row = arr[i]
        b.append(row[i])
        c.append(row_last[i])
        a.append(row[i - 1])
        row_last = row
    return (a, b, c)

def tridiagonals_as_array(a, b, c, zero=0.0):
    N = len(b)
    arr = [[zero] * N for _ in range(N)]
    row_last = arr[0]
    row_last[0] = b[0]
    for i in range(1, N):
        row = arr[i]
        row[i] = b[i]
        row[i - 1] = a[i - 1]
        row_last[i] = c[i - 1]
        row_last = row
    return arr

def solve_tridiagonal(a, b, c, d):
    b, d = ([i for i in b], [i for i in d])
    N = len(d)
    for i in range(N - 1):
        m = a[i] / b[i]
        b[i + 1] -= m * c[i]
        d[i + 1] -= m * d[i]
    b[-1] = d[-1] / b[-1]
    for i in range(N - 2, -1, -1):
        b[i] = (d[i] - c[i] * b[i + 1]) / b[i]
    return b

def subset_matrix(whole, subset):
    if type(subset) is slice:
        subset = range(subset.start, subset.stop, subset.step)
    new = []
    for i in subset:
        whole_i = whole[i]
        new.append([whole_i[j] for j in subset])
    return new

def argsort1d(arr):
    return [i[0] for i in sorted(enumerate(arr), key=lambda x: x[1])]

def sort_paired_lists(list1, list2):
    if len(list1) != len(list2):
        raise ValueError('Lists must have equal length')
    if len(list1) == 0:
        return ([], [])
    sorted_indices = argsort1d(list1)
    sorted_list1 = [list1[i] for i in sorted_indices]
    sorted_list2 = [list2[i] for i in sorted_indices]
    return (sorted_list1, sorted_list2)

def svd(matrix):
    import numpy as np
    U, s, Vt = np.linalg.svd(np.array(matrix, dtype=np.float64), full_matrices=True)
    return (U.tolist(), s.tolist(), Vt.tolist())

def gelsd(a, b, rcond=None):
    m = len(a)
    n = len(a[0]) if m > 0 else 0
    if m == 0:
        if n == 0:
            return ([], 0.0, 0, [])
        return ([0.0] * n, 0.0, 0, [])
    elif n == 0:
        return ([], 0.0, 0, [])
    if len(b) != m:
        raise ValueError(f'Incompatible dimensions: A is {m}x{n}, b has length {len(b)}')
    U, s, Vt = svd(a)
    if rcond is None:
        rcond = max(m, n) * 2.2e-16
    tol = rcond * s[0]
    rank = sum((sv > tol for sv in s))
    if rank == 0:
        return ([0.0] * n, sum((bi * bi for bi in b)), 0, s)
    Ut = transpose(U)
    Utb = matrix_vector_dot(Ut[:rank], b)
    s_inv_Utb = [Utb[i] / s[i] if s[i] != 0.0 else 0.0 for i in range(rank)]
    V = transpose(Vt[:rank])
    x = matrix_vector_dot(V, s_inv_Utb)
    residuals = 0.0
    if m > n and rank == n:
        Ax = matrix_vector_dot(a, x)
        diff = [b[i] - Ax[i] for i in range(m)]
        residuals = dot_product(diff, diff)
    return (x, residuals, rank, s)

def null_space(a, rcond=None):
    m = len(a)
    n = len(a[0]) if m > 0 else 0
    if m == 0 or n == 0:
        return []
    U, s, Vt = svd(a)
    if rcond is None:
        rcond = max(m, n) * 2.2e-16
    tol = max(s) * rcond if s else 0.0
    num = sum((sv > tol for sv in s))
    V = transpose(Vt)
    Z = [row[num:] for row in V]
    return Z
