"""Exact rational geometry, independent of the library and of NumPy."""
import math
from fractions import Fraction as F

Q0 = F(0)


def q(x):
    """Exact value of a Python or NumPy number."""
    if isinstance(x, (int, float)):
        return F(x)
    return F(x.item())


def qv(xs):
    return [q(x) for x in xs]


def qm(rows):
    return [qv(r) for r in rows]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def mul(k, a):
    return [k * x for x in a]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), Q0)


def n2(a):
    return sum((x * x for x in a), Q0)


def pad3(a):
    return list(a) + [Q0] * (3 - len(a))


def cross(a, b):
    a, b = pad3(a), pad3(b)
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sin2_num(a, b):
    """|a|^2 |b|^2 - (a.b)^2, the squared norm of the cross product in any dimension."""
    return n2(a) * n2(b) - dot(a, b) ** 2


def fs(x):
    """Square root of a non-negative rational as a float, correctly rounded up to an ulp, at any magnitude."""
    x = F(x)
    if x <= 0:
        return 0.0
    n, d = x.numerator, x.denominator
    shift = (n.bit_length() - d.bit_length()) // 2
    y = x / F(4) ** shift if shift else x
    r = math.sqrt(y.numerator / y.denominator)
    try:
        return math.ldexp(r, shift)
    except OverflowError:
        return math.inf


def fl(x):
    return float(x)


def fnorm(a):
    return fs(n2(a))


def amax(*vs):
    """Largest absolute component of vectors (of rationals or numbers), as a float."""
    m = 0.0
    for v in vs:
        for x in v:
            y = abs(float(x))
            if y > m:
                m = y
    return m


def rank(rows):
    """Exact rank of a rational matrix."""
    m = [list(r) for r in rows]
    if not m:
        return 0
    rk = 0
    ncol = len(m[0])
    for c in range(ncol):
        piv = next((i for i in range(rk, len(m)) if m[i][c] != 0), None)
        if piv is None:
            continue
        m[rk], m[piv] = m[piv], m[rk]
        for i in range(rk + 1, len(m)):
            if m[i][c] != 0:
                f = m[i][c] / m[rk][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[rk])]
        rk += 1
        if rk == len(m):
            break
    return rk


def solve(A, b):
    """Solve a square rational system (Gauss-Jordan); None if it is singular."""
    n = len(A)
    m = [list(r) + [y] for r, y in zip(A, b)]
    for c in range(n):
        piv = next((i for i in range(c, n) if m[i][c] != 0), None)
        if piv is None:
            return None
        m[c], m[piv] = m[piv], m[c]
        f = m[c][c]
        m[c] = [x / f for x in m[c]]
        for i in range(n):
            if i != c and m[i][c] != 0:
                g = m[i][c]
                m[i] = [x - g * y for x, y in zip(m[i], m[c])]
    return [r[n] for r in m]


def det(rows):
    m = [list(r) for r in rows]
    n = len(m)
    d = F(1)
    for c in range(n):
        piv = next((i for i in range(c, n) if m[i][c] != 0), None)
        if piv is None:
            return Q0
        if piv != c:
            m[c], m[piv] = m[piv], m[c]
            d = -d
        d *= m[c][c]
        for i in range(c + 1, n):
            if m[i][c] != 0:
                f = m[i][c] / m[c][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[c])]
    return d


def foot_line(a, d, p):
    """Nearest point to p on the line a + t d."""
    return add(a, mul(dot(sub(p, a), d) / n2(d), d))


def foot_plane(a, n, p):
    return sub(p, mul(dot(sub(p, a), n) / n2(n), n))


def is_square(x):
    """True if the rational has a rational square root."""
    x = F(x)
    if x < 0:
        return False
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return n * n == x.numerator and d * d == x.denominator


def rsqrt(x):
    """Rational square root of a perfect square."""
    x = F(x)
    return F(math.isqrt(x.numerator), math.isqrt(x.denominator))


def simple(xs, bits=20):
    """True if all numbers are multiples of 2^-bits below 2^bits, so that products and sums of a few are exact floats."""
    for x in xs:
        f = x if isinstance(x, F) else q(x)
        dnm = f.denominator
        if dnm & (dnm - 1) or dnm > (1 << bits) or abs(f) > (1 << bits):
            return False
    return True
