"""All ways to lay out one matrix in memory that matter to array consumers."""
import numpy as np


def layouts(rows, shape):
    """Yields (name, array); every array has the same elements."""
    A = np.array(rows, dtype=np.float64).reshape(shape)
    n, m = shape
    yield "C", A.copy(order="C")
    yield "Fortran", np.asfortranarray(A)
    yield "transposed view", A.T.copy(order="C").T
    yield "reversed rows", A[::-1].copy()[::-1]
    yield "reversed columns", A[:, ::-1].copy()[:, ::-1]
    yield "reversed", A[::-1, ::-1].copy()[::-1, ::-1]
    B = np.full((2 * n + 1, 3 * m + 1), 77.0)
    B[1::2, 1::3] = A
    yield "every other element", B[1::2, 1::3]
    C = np.full((n + 1, m + 2), 55.0)
    C[1:, 1:-1] = A
    yield "window", C[1:, 1:-1]


def conversions(rows, shape):
    """Arrays of other types with the same elements."""
    A = np.array(rows, dtype=np.float64).reshape(shape)
    yield "float32", A.astype(np.float32)
    if (A == np.floor(A)).all():
        yield "int64", A.astype(np.int64)
        yield "uint8", A.astype(np.uint8)
    yield "big endian", A.astype(">f8")
    if shape[0] and shape[1]:
        yield "list", A.tolist()
