"""Reference arithmetic in 80-bit floats."""
import numpy as np

LD = np.longdouble


def ld(a):
    return np.asarray(a).astype(LD)


def norm(a, axis=-1):
    a = ld(a)
    return np.sqrt(np.sum(a * a, axis=axis))


def dot(a, b):
    return np.sum(ld(a) * ld(b), axis=-1)


def unit(a):
    a = ld(a)
    return a / norm(a)[..., None]


def cross(a, b):
    a, b = np.broadcast_arrays(ld(a), ld(b))
    return np.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
                     a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                     a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)


def matmul(a, b):
    """Extended-precision product of 2-d arrays."""
    a, b = ld(a), ld(b)
    return np.sum(a[:, :, None] * b[None, :, :], axis=1)


def angle(a, b):
    """Angle in degrees, accurate everywhere."""
    a, b = unit(a), unit(b)
    return LD(2) * np.arctan2(norm(a - b), norm(a + b)) * LD(180) / LD('3.14159265358979323846')


def maxabs(*arrays):
    m = 0.
    for a in arrays:
        a = np.asarray(a)
        if a.size:
            m = max(m, float(np.max(np.abs(a))))
    return m
