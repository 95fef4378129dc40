"""Generates spec/FactTable.tla: n! and 1/n! (28+ digits) for n = 0..260."""
from fractions import Fraction
import os
def enc(x):
    x = Fraction(x); e = 0
    while x >= 1: x /= 10000; e += 1
    while x < Fraction(1, 10000): x *= 10000; e -= 1
    n = int(x * 10000**7); l = []
    for _ in range(7): l.append(n % 10000); n //= 10000
    return "<<1,%d,<<%s>>>>" % (e, ",".join(map(str, l[::-1])))
f = 1; F = []; G = []
for n in range(261):
    if n: f *= n
    F.append(enc(f)); G.append(enc(Fraction(1, f)))
with open(os.path.join(os.path.dirname(__file__), "..", "spec", "FactTable.tla"), "w") as o:
    o.write("---------------------------- MODULE FactTable ----------------------------\n"
            "(* Generated by tools/mkfact.py: FactTab[n+1] = n!, InvFactTab[n+1] = 1/n!.\n"
            "   SpecTest.tla checks the recursion n! = n (n-1)! on the whole table. *)\nEXTENDS Integers\n"
            "FactTab == <<\n" + ",\n".join(F) + ">>\n\nInvFactTab == <<\n" + ",\n".join(G) + ">>\n" + "=" * 75 + "\n")
