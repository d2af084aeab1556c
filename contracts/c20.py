"""C20: Vector3 obeys vector algebra."""
import copy
import math
import operator
from pydv.rt import driver, bounded, real, choice, check, assume, close
from gcodeutils.stretch.vector3 import Vector3


def vec(n):
    return Vector3(real(n + 'x'), real(n + 'y'), real(n + 'z'))


def is_vec(v, x, y, z):
    return v.__class__ is Vector3 and close(v.x, x) and close(v.y, y) and close(v.z, z)


def untouched(a, b, x, y, z, u, v, w):
    return a.x == x and a.y == y and a.z == z and b.x == u and b.y == v and b.z == w


@driver('C20')
def pure_binary():
    a, b = vec('a'), vec('b')
    x, y, z, u, v, w = a.x, a.y, a.z, b.x, b.y, b.z
    check(is_vec(a + b, x + u, y + v, z + w), 'sum')
    check(is_vec(a - b, x - u, y - v, z - w), 'difference')
    check(close(a.dot(b), x * u + y * v + z * w), 'dot product')
    check(is_vec(a.cross(b), y * w - z * v, z * u - x * w, x * v - y * u), 'cross product')
    check(close(a.distanceSquared(b), (x - u) * (x - u) + (y - v) * (y - v) + (z - w) * (z - w)), 'squared distance')
    r = a.reflect(b)
    d = 2 * (x * u + y * v + z * w)
    check(is_vec(r, x - d * u, y - d * v, z - d * w), 'reflection')
    check(r is not a and r is not b, 'reflection is a new vector')
    check(untouched(a, b, x, y, z, u, v, w), 'operands of pure binary operators unchanged')


@driver('C20')
def distance():
    a, b = vec('a'), vec('b')
    x, y, z, u, v, w = a.x, a.y, a.z, b.x, b.y, b.z
    d = a.distance(b)
    check(d >= 0, 'distance is not negative')
    check(close(d * d, (x - u) * (x - u) + (y - v) * (y - v) + (z - w) * (z - w)), 'distance is the root of the squared distance')
    m = abs(a)
    check(m >= 0, 'magnitude is not negative')
    check(close(m * m, x * x + y * y + z * z), 'magnitude')
    check(close(a.magnitude(), m), 'magnitude() is abs()')
    check(close(a.magnitudeSquared(), x * x + y * y + z * z), 'squared magnitude')
    check(untouched(a, b, x, y, z, u, v, w), 'operands unchanged')


@driver('C20')
def scaling():
    a = vec('a')
    x, y, z = a.x, a.y, a.z
    s = real('s')
    check(is_vec(a * s, s * x, s * y, s * z), 'scaling')
    check(is_vec(s * a, s * x, s * y, s * z), 'scaling from the left')
    check(is_vec(-a, -x, -y, -z), 'negation')
    c = +a
    check(is_vec(c, x, y, z) and c is not a, 'unary plus is a copy')
    check(a.x == x and a.y == y and a.z == z, 'operand unchanged')


@driver('C20')
def division():
    a = vec('a')
    x, y, z = a.x, a.y, a.z
    s = real('s')
    assume(s != 0)
    check(is_vec(a / s, x / s, y / s, z / s), 'division')
    check(a.x == x and a.y == y and a.z == z, 'operand of division unchanged')
    assume(x != 0 and y != 0 and z != 0)
    check(is_vec(s / a, s / x, s / y, s / z), 'division by a vector')
    check(a.x == x and a.y == y and a.z == z, 'operand of reverse division unchanged')


@driver('C20')
def floor_division():
    a = vec('a')
    x, y, z = a.x, a.y, a.z
    s = real('s')
    assume(s != 0)
    check(is_vec(a // s, x // s, y // s, z // s), 'floor division')
    check(a.x == x and a.y == y and a.z == z, 'operand of floor division unchanged')
    b = a
    b //= s
    check(b is a and is_vec(a, x // s, y // s, z // s), 'in-place floor division')


@driver('C20')
def in_place():
    a, b = vec('a'), vec('b')
    x, y, z, u, v, w = a.x, a.y, a.z, b.x, b.y, b.z
    s = real('s')
    c = a
    op = choice('op', 'add', 'sub', 'mul', 'div', 'max', 'min', 'set', 'xyz')
    if op == 'add':
        c += b
        check(is_vec(a, x + u, y + v, z + w), 'in-place sum')
    elif op == 'sub':
        c -= b
        check(is_vec(a, x - u, y - v, z - w), 'in-place difference')
    elif op == 'mul':
        c *= s
        check(is_vec(a, s * x, s * y, s * z), 'in-place scaling')
    elif op == 'div':
        assume(s != 0)
        c /= s
        check(is_vec(a, x / s, y / s, z / s), 'in-place division')
    elif op == 'max':
        a.maximize(b)
        check(is_vec(a, u if u > x else x, v if v > y else y, w if w > z else z), 'component-wise maximum')
    elif op == 'min':
        a.minimize(b)
        check(is_vec(a, u if u < x else x, v if v < y else y, w if w < z else z), 'component-wise minimum')
    elif op == 'set':
        a.setToVector3(b)
        check(is_vec(a, u, v, w), 'setToVector3')
    else:
        a.setToXYZ(u, v, s)
        check(is_vec(a, u, v, s), 'setToXYZ')
    check(c is a, 'in-place operators keep the object')
    check(b.x == u and b.y == v and b.z == w, 'right operand of in-place operators unchanged')


@driver('C20')
def self_operand():
    """the same object on both sides"""
    a = vec('a')
    x, y, z = a.x, a.y, a.z
    check(is_vec(a + a, 2 * x, 2 * y, 2 * z), 'a + a')
    check(is_vec(a - a, 0, 0, 0), 'a - a')
    check(is_vec(a.cross(a), 0, 0, 0), 'a x a')
    b = a
    b += a
    check(is_vec(a, 2 * x, 2 * y, 2 * z), 'a += a')
    b -= a
    check(is_vec(a, 0, 0, 0), 'a -= a')


@driver('C20')
def normalisation():
    a = vec('a')
    x, y, z = a.x, a.y, a.z
    n2 = x * x + y * y + z * z
    m = abs(a)
    n = a.getNormalized()
    if m == 0:
        check(is_vec(n, x, y, z) and n is not a, 'a null vector is its own normalisation')
    else:
        check(is_vec(n, x / m, y / m, z / m), 'normalised vector')
    check(a.x == x and a.y == y and a.z == z, 'getNormalized leaves its operand unchanged')
    a.normalize()
    if m == 0:
        check(is_vec(a, x, y, z), 'normalising a null vector has no effect')
    else:
        check(is_vec(a, x / m, y / m, z / m), 'in-place normalisation')


@driver('C20')
def copies():
    a = vec('a')
    x, y, z = a.x, a.y, a.z
    b = a.copy()
    check(b is not a and is_vec(b, x, y, z), 'copy')
    b.x = b.x + 1
    b.setToXYZ(1.0, 2.0, 3.0)
    check(a.x == x and a.y == y and a.z == z, 'a copy is independent')
    d = Vector3()
    check(is_vec(d, 0, 0, 0) and d.getIsDefault(), 'default vector')
    check(a.getIsDefault() == (x == 0 and y == 0 and z == 0), 'getIsDefault')
    l = a.getFloatList()
    check(len(l) == 3 and l[0] == x and l[1] == y and l[2] == z, 'getFloatList')


@driver('C20')
def equality():
    a, b = vec('a'), vec('b')
    e = a.x == b.x and a.y == b.y and a.z == b.z
    check((a == b) == e, 'equality is component-wise')
    check((a != b) == (not e), 'inequality is the negation of equality')
    check(a == a, 'equality is reflexive')
    check(not (a == None) and a != None, 'a vector is not None')
    check(not (a == 'x'), 'a vector is not a string')


@driver('C20')
def drop_axis():
    a = vec('a')
    x, y, z = a.x, a.y, a.z
    c = a.dropAxis()
    check(close(c.real, x) and close(c.imag, y), 'dropAxis drops Z by default')
    c = a.dropAxis(0)
    check(close(c.real, y) and close(c.imag, z), 'dropAxis(0)')
    c = a.dropAxis(1)
    check(close(c.real, x) and close(c.imag, z), 'dropAxis(1)')
    c = a.dropAxis(2)
    check(close(c.real, x) and close(c.imag, y), 'dropAxis(2)')
    check(a.x == x and a.y == y and a.z == z, 'dropAxis leaves the vector unchanged')


@driver('C20', note='quick sanity of rarely equal components')
def near_equality():
    a = vec('a')
    d = real('d')
    assume(d != 0)
    b = Vector3(a.x, a.y, a.z + d)
    assume(b.z != a.z)
    check(a != b and not (a == b), 'vectors differing in Z differ')
    b = Vector3(a.x, a.y, a.z)
    check(a == b and not (a != b), 'vectors with equal components are equal')


NUMBERS = (0, 0.0, -0.0, 1, 1.0, -1, -1.0, 2, 3.0, -7, 0.5, -2.5, 10 ** 20, 1e20, 1e-9)


@bounded('C20', runs=400, note='whole and fractional numbers, and zeros of either sign, mixed')
def mixed_native():
    x, y, z, u, v, w = [choice(n, *NUMBERS) for n in ('x', 'y', 'z', 'u', 'v', 'w')]
    a = Vector3(x, y, z)
    b = Vector3(u, v, w) if choice('same', 0, 1) else Vector3(float(x), y + 0.0, 0 + z)
    u, v, w = b.x, b.y, b.z
    e = x == u and y == v and z == w
    check((a == b) == e and (b == a) == e, 'equality is component-wise')
    check((a != b) == (not e), 'inequality is the negation of equality')
    k = choice('k', 1, 2, -3, 0.5, 2.0)
    for r, n in ((a / k, operator.truediv), (a // k, operator.floordiv), (a * k, operator.mul), (k * a, operator.mul)):
        check((r.x, r.y, r.z) == (n(x, k), n(y, k), n(z, k)), 'operations on mixed numbers')
    c = a.copy()
    c //= k
    check((c.x, c.y, c.z) == (x // k, y // k, z // k), 'in-place floor division')
    c = a.copy()
    c /= k
    check((c.x, c.y, c.z) == (x / k, y / k, z / k), 'in-place division')
    c = -a
    check((c.x, c.y, c.z) == (-x, -y, -z), 'negation')
    c = a.copy()
    c.maximize(b)
    check((c.x, c.y, c.z) == (max(x, u), max(y, v), max(z, w)), 'component-wise maximum')
    c = a.copy()
    c.minimize(b)
    check((c.x, c.y, c.z) == (min(x, u), min(y, v), min(z, w)), 'component-wise minimum')
    check((a.x, a.y, a.z, b.x, b.y, b.z) == (x, y, z, u, v, w), 'operands unchanged')
