"""Generates spec/QuadTable.tla: nodes and weights of the double-exponential rule on (0, inf) and of the
24-point Gauss-Legendre rule in the angle on (0, pi/2).   run with python3-vt (mpmath)"""
from mpmath import mp, mpf, exp, sin, cos, pi, legendre, diff, findroot, polyroots, taylor
import os
mp.dps = 50
def enc(x):
    e = 0
    while x >= 1: x /= 10000; e += 1
    while x < mpf(1) / 10000: x *= 10000; e -= 1
    n = int(x * mpf(10000)**7); l = []
    for _ in range(7): l.append(n % 10000); n //= 10000
    return "<<1,%d,<<%s>>>>" % (e, ",".join(map(str, l[::-1])))
h = mpf(3) / 10
de = []
for j in range(-10, 14):
    t = h * j; u = exp(t - exp(-t)); de.append((u, h * u * (1 + exp(-t))))
N = 24
gl = []
def leg(n, x):
    p, q = mpf(1), x
    for k in range(2, n + 1): p, q = q, ((2 * k - 1) * x * q - (k - 1) * p) / k
    return q, n * (x * q - p) / (x * x - 1)
for i in range(1, N + 1):
    x = cos(pi * (i - mpf(1) / 4) / (N + mpf(1) / 2))
    for _ in range(8):
        p, d = leg(N, x); x -= p / d
    d = leg(N, x)[1]
    w = 2 / ((1 - x * x) * d * d)
    th = pi / 4 * (x + 1)
    gl.append((sin(th), cos(th), w * pi / 4))
assert abs(sum(w for _, _, w in gl) - pi / 2) < mpf(10)**-35 and abs(sum(s * w for s, _, w in gl) - 1) < mpf(10)**-35
with open(os.path.join(os.path.dirname(__file__), "..", "spec", "QuadTable.tla"), "w") as o:
    o.write("---------------------------- MODULE QuadTable ----------------------------\n"
            "(* Generated by tools/mkde.py.  DETab: node and weight of int_0^inf f(u) du, u = exp(t - exp(-t)), step 3/10.\n"
            "   GLTab: sine, cosine and weight of the Gauss-Legendre rule for int_0^{pi/2} f dtheta.  SpecTest.tla integrates\n"
            "   known functions with both tables. *)\nEXTENDS Integers\n"
            "DETab == <<\n" + ",\n".join("<<%s, %s>>" % (enc(a), enc(b)) for a, b in de) + ">>\n\n"
            "GLTab == <<\n" + ",\n".join("<<%s, %s, %s>>" % tuple(map(enc, g)) for g in gl) + ">>\n" + "=" * 75 + "\n")
