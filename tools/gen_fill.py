#!/usr/bin/env python3
"""Writes bases/fill.lp: LPs in which eliminating a doubleton equality needs room that has to be made by
moving neighbouring columns in the transposed row store (short surviving column, long eliminated column),
for every order of the columns and several lengths of the neighbours."""
import itertools, os
out = []
def lp(rows, cols, shift=10):
    out.append("lp %d %d\nsettings 255 %d 60" % (len(rows), len(cols), shift))
    for l, r, a in rows: out.append("row %s %s %s" % (l, r, " ".join("%g" % x for x in a)))
    for l, u, c in cols: out.append("col %s %s %g" % (l, u, c))
K = 8
for perm in itertools.permutations(range(4)):
    for nb in range(3):                    # neighbours: long and long, short and long, short and short
        # column 0: survives (coefficient 2, two rows), 1: eliminated (K rows), 2 and 3: neighbours
        rows = [(4, 4, [2, 1, 0, 0])]
        for i in range(K):
            a = [0, 1, 0, 0]
            a[2] = 1 + i % 3 if nb == 0 or i % 2 == 0 else 0
            a[3] = (2 + i % 5) * (-1 if i % 3 == 1 else 1) if nb < 2 or i % 2 == 1 else 0
            rows.append((1 if i % 2 == 0 else "-inf", "inf" if i % 2 == 0 else 9 + i, a))
        rows.append((-3, 8, [1, 0, 1, -1]))
        cols = [(0, "inf", 1), ("-inf", "inf", -1), (0, 6, 2), (-1, 6, -1)]
        lp([(l, r, [a[perm[j]] for j in range(4)]) for l, r, a in rows], [cols[perm[j]] for j in range(4)])
# chains: a column that survives several eliminations fills up step by step
for perm in itertools.permutations(range(4)):
    rows = [(3, 3, [2, 1, 0, 0]), (2, 2, [2, 0, 1, 0])]
    for i in range(4): rows.append((1, "inf", [0, 1, 0, 2 + i])); rows.append(("-inf", 7 + i, [0, 0, 1, 1 - 2 * (i % 2) + i]))
    cols = [(0, 4, 1), ("-inf", "inf", 1), (-5, "inf", -1), (0, 3, 1)]
    lp([(l, r, [a[perm[j]] for j in range(4)]) for l, r, a in rows], [cols[perm[j]] for j in range(4)])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bases", "fill.lp"), "w").write("\n".join(out) + "\n")
