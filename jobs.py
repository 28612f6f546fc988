"""Which harnesses, with which parameters, decide each property.

A job is (harness, p0, p1, p2, p3); see the harness crate for what the numbers
mean.  jobs(prop, deep) gives the list; cost is roughly ordered from cheap to
expensive by the caller.
"""
CONTENT, BAL, ISO, LAZY, DROP, HINT = 1, 2, 4, 8, 16, 32
BT = ["b1", "b2", "b3", "b5"]
MAPS = ["avl"] + BT
SETS = ["avl", "b1", "b2", "b5"]
NOF = {"b1": 1, "b2": 2, "b3": 3, "b5": 5, "b9": 9, "b20": 20, "fix": 5, "fixw": 5, "avl": 0}

AVL3 = list(range(20))          # every shape of height <= 3
AVL4 = list(range(20, 335))     # every shape of height 4


def hexdigits(ds):
    b = 0
    for i, d in enumerate(ds):
        b |= d << (4 * i)
    return b


def even(n, leaves, extra=0):
    """leaves of n keys each; made from a tree of some leaves more"""
    return 2000 * extra + leaves * (n + 1) - 1


# trees of three and four levels with the fewest keys
L3 = {n: even(n, 2 * (n + 1), 1) for n in (1, 2, 3, 5, 9)}
L4 = {1: even(1, 8, 3), 2: even(2, 18, 4)}
# the largest trees of their height that ascending and descending insertion make
BRINK = {
    1: [(1009, 0), (1012, 1), (1021, 0), (1039, 1), (1045, 0)],
    2: [(1020, 0), (1025, 1), (1065, 0)],
    3: [(1035, 0), (1042, 1)],
    5: [(1077, 0), (1088, 1)],
    "fix": [(1088, 0), (1088, 1)],
}


def bt_pre(k, deep=False, big=True):
    """(a, b) prestates of B-trees of minimum occupancy n: one, two, three and
    more levels; leaves at the minimum, at the maximum, and one unlike the rest."""
    n = NOF[k]
    out = [(i, 0) for i in range(0, 2 * n + 1)] + [(2 * n, 1)]
    for leaves in range(2, 2 * n + 3):
        a = even(n, leaves)
        if not deep and n >= 3 and leaves > 4 and leaves != 2 * n + 2:
            continue
        pats = {tuple([0] * leaves), tuple([n + 1] * leaves)}
        for i in range(leaves):
            for x in (1, n, n + 1):
                one = [0] * leaves
                one[i] = x
                pats.add(tuple(one))
            for x in (0, 1):
                one = [n + 1] * leaves
                one[i] = x
                pats.add(tuple(one))
        if n <= 2 and leaves <= 3:
            for x in range((n + 2) ** leaves):
                ds, y = [], x
                for _ in range(leaves):
                    ds.append(y % (n + 2))
                    y //= n + 2
                pats.add(tuple(ds))
        pats = sorted(pats)
        if not deep and leaves > 3:
            full = hexdigits([n + 1] * leaves)
            out.append((a, full))
            pats = pats[:: max(1, len(pats) // 6)]
        out += [(a, hexdigits(p)) for p in pats]
    if big:
        # three levels: 2(n+1) leaves, and one more
        l3 = [L3[n], even(n, 2 * n + 3)]
        leaves = 2 * (n + 1)
        out += [(a, 0) for a in l3]
        for i in (0, n, n + 1, leaves - 1) if not deep else range(leaves):
            out.append((L3[n], (n + 1) << (4 * i)))
            if n < 3 or deep:
                out.append((L3[n], hexdigits([0 if j == i else n + 1 for j in range(leaves)])))
                out.append((L3[n], 1 << (4 * i)))
        out.append((L3[n], hexdigits([n + 1] * leaves)))
        out.append((l3[1], hexdigits([n + 1] * min(15, leaves + 1))))
        if n in L4:
            out.append((L4[n], 0))
            leaves = L4[n] % 2000 // (n + 1)
            for i in (0, n, n + 1, leaves // 2 - 1, leaves // 2, leaves - 1):
                if i < 15:
                    out.append((L4[n], (n + 1) << (4 * i)))
        out += BRINK["fix" if k.startswith("fix") else n]
        for c in ({1: (1012, 1024, 1040), 2: (1024, 1040), 3: (1040, 1064), 5: (1064, 1090)}[n]):
            for o in range(4):
                out.append((c, o))
    return list(dict.fromkeys(out))


def bt_small(n):
    """a few prestates: empty, one leaf, full leaf, two levels min and max, three levels"""
    two, three = even(n, 2), even(n, 3)
    out = [(0, 0), (1, 0), (2 * n, 1), (two, 0), (two, hexdigits([n + 1, n + 1])), (two, n + 1), (two, n + 1 << 4), (three, 0)]
    return list(dict.fromkeys(out))


def pre(k, deep=False, big=True):
    if k == "avl":
        return [(s, 0) for s in AVL3] + ([(s, 0) for s in AVL4] if deep else [(s, 0) for s in AVL4[::9]])
    return bt_pre(k, deep, big)


def small(k, deep=False):
    if k == "avl":
        return [(s, 0) for s in ([0, 1, 2, 3, 4] + list(range(5, 20, 1 if deep else 4)) + ([40, 150, 334] if deep else []))]
    s = bt_small(NOF[k])
    if deep:
        s += [(L3[NOF[k]], 0)]
    return s


def mid(k, deep=False):
    """between small and pre"""
    if k == "avl":
        return [(s, 0) for s in AVL3 + AVL4[:: 7 if deep else 31]]
    p = bt_pre(k, False, True)
    return p if deep else p[:: (3 if len(p) > 40 else 2)] + [(L3[NOF[k]], 0)]


FIBS = [(1000 + h, b) for h in (5, 6, 7) for b in (4, 5)]
FIB8 = [(1008, 4), (1008, 5)]


class J(list):
    def __call__(self, h, a, b, c, d):
        self.append((h, a, b, c, d))


def size(k, p):
    a, b = p
    if a >= 2000:
        a %= 2000
    elif a >= 1000:
        return a - 1000 if b < 4 else [0, 1, 2, 4, 7, 12, 20, 33, 54][a - 1000]
    if k == "avl":
        return 0 if a == 0 else (1 if a == 1 else (3 if a < 5 else (7 if a < 20 else 12)))
    n, x = a, b
    while x:
        n += x % 16
        x //= 16
    return n


def pack(p):
    return p[0] | p[1] << 16


def point(j, k, g, deep, shares=(0,), multi=True, big=True):
    for sh in shares:
        ps = pre(k, deep or sh == 0 and NOF[k] <= 2, big)
        if k == "avl":
            if sh != 0 and not deep:
                ps = [(s, 0) for s in AVL3] + [(s, 0) for s in AVL4[sh * 3 :: 23]]
            ps = ps + FIBS + (FIB8 if deep or sh == 0 else [])
            if big:
                ps = ps + [(1032, 0), (1064, 2)] + ([(1064, 0), (1064, 1), (1064, 3), (1128, 2), (1128, 0)] if deep else [])
        elif sh != 0 and not deep:
            ps = [p for i, p in enumerate(ps[sh % 3 :: 3]) if size(k, p) <= 45 or i % 4 == 0]
        for p in ps:
            j("pt_" + k, p[0], p[1], 0xE, g | sh << 8)
    if multi:
        for p in small(k, deep):
            n = size(k, p)
            if n <= 2:
                j("pt_" + k, p[0], p[1], 0xDDD, g)
            if n <= 7 or deep and n <= 14:
                j("pt_" + k, p[0], p[1], 0xDC, g)
                if 0 not in shares or len(shares) > 1:
                    j("pt_" + k, p[0], p[1], 0xCC, g | 1 << 8)
            if deep and n <= 4:
                j("pt_" + k, p[0], p[1], 0xDDD, g)
                j("pt_" + k, p[0], p[1], 0xCCC, g | 1 << 8)
        if deep:
            j("pt_" + k, 0, 0, 0xDDDD, g)


def bulk(j, k, g, deep, holds=(0, 1), rels=(0, 1), op2=True):
    ops = [0, 2, 3, 4, 5] if k == "avl" else [0]
    if k == "avl":
        sh = [(0, 0), (1, 0), (2, 0), (4, 0), (6, 0), (12, 0)] + ([(3, 0), (19, 0)] if deep else [])
    else:
        n = NOF[k]
        sh = [(0, 0), (1, 0), (2 * n, 0), (2 * n + 1, 0)] + ([(2 * n + 1, n)] if n < 5 or deep else [])
        sh = list(dict.fromkeys(sh))
    lim = 10 if deep else 7
    for x in sh:
        for y in sh:
            n, m = size(k, x), size(k, y)
            if min(n, m) > 3 or n + m > lim and min(n, m) > 1:
                continue
            for op in ops:
                for h in holds:
                    if 0 in rels:
                        j("bulk_" + k, pack(x), pack(y), op, g | h << 8)
        n = size(k, x)
        for op in ops:
            for h in holds:
                if 1 in rels and n <= 12:
                    j("bulk_" + k, pack(x), 0, op | 1 << 4, g | h << 8)
                    if n <= 4 or deep and n <= 8:
                        j("bulk_" + k, pack(x), 0, op | 2 << 4, g | h << 8)
    # clones of large maps, changed at one or two keys
    if 1 in rels:
        bigs = [(1016, 2), (1040, 0)] + ([(1064, 2)] if deep else [])
        for p in bigs:
            for op in ops:
                j("bulk_" + k, pack(p), 0, op | 1 << 4, g | 1 << 8)
                if deep and p[0] < 1040:
                    j("bulk_" + k, pack(p), 0, op | 2 << 4, g | 1 << 8)
    # one big, one tiny: all positions
    for p in [(1010, 2), (1020, 0)] + ([(1040, 0), (1040, 2)] if deep else []):
        for y in [(1, 0)]:
            for op in ops:
                j("bulk_" + k, pack(p), pack(y), op, g | (1 if 1 in holds else 0) << 8)
                j("bulk_" + k, pack(y), pack(p), op, g)
    split(j, k, g, deep, holds)
    if k == "avl":
        js = [(0, 0), (1, 0), (3, 0), (4, 0), (8, 0), (100, 0)] + [(1005, 4), (1006, 5), (1020, 0)]
        for x in js:
            for y in js:
                j("bulk_avl", pack(x), pack(y), 6, g | (1 if 1 in holds else 0) << 8)
    else:
        for p in mid(k, deep):
            if p[1] < 1 << 48:
                j("bulk_" + k, pack(p), 0, 2, g | (1 if 1 in holds else 0) << 8)
    if op2:
        for op in ops + ([6] if k == "avl" else []):
            j("bulk_" + k, pack((2, 0)), pack((1, 0)), op | 0xD << 8, g | (1 if 1 in holds else 0) << 8)
        j("bulk_" + k, pack((4, 0)), 0, 1 | 0xD << 8, g | (1 if 1 in holds else 0) << 8)


# pairs of sets or maps with all relative orders of their keys (n + m choose n
# and more of them)
WIDE = [((1004, 0), (1004, 2)), ((1005, 1), (1004, 0)), ((1005, 0), (1005, 2)), ((1003, 0), (1006, 2)), ((1006, 0), (1003, 1))]
WIDER = [((1006, 0), (1006, 2)), ((1005, 2), (1007, 0)), ((1004, 0), (1009, 2)), ((1009, 0), (1003, 2))]


# pairs of large ones, one beyond the other or inside a gap of it
FAR = [((1017, 0), (1012, 2)), ((1012, 2), (1040, 0)), ((1040, 2), (1017, 0)), ((1005, 0), (1033, 2))]
FARTHER = [((1070, 0), (1033, 2)), ((1020, 2), (1100, 0)), ((1064, 2), (1064, 0)), ((1009, 0), (1009, 1))]


def far_bulk(j, k, deep, ops):
    for x, y in FAR + (FARTHER if deep else []):
        for rel in (8, 9, 10, 11):
            for op in ops:
                for h in (0, 1) if deep else (rel % 2,):
                    j("bulk_" + k, pack(x), pack(y), op | rel << 4, CONTENT | h << 8)
    # many and few
    for x, y in (((1, 0), (1140, 2)), ((1140, 0), (1, 0))) + ((((1, 0), (1300, 2)), ((1300, 0), (1, 0)), ((1002, 0), (1150, 2)), ((1150, 0), (1002, 0))) if deep else ()):
        for op in ops:
            j("bulk_" + k, pack(x), pack(y), op, CONTENT)


def far_salg(j, k, deep):
    for i, (x, y) in enumerate(FAR + (FARTHER if deep else [])):
        for rel in (8, 9, 10, 11):
            for what in range(5):
                for op in (0, 1, 2, 3) if what in (1, 2, 3) else (0,):
                    if deep or what in (0, 1, 3) or (i + rel) % 4 == 0:
                        j("salg_" + k, pack(x), pack(y), what | op << 4 | rel << 8, CONTENT)


def wide_bulk(j, k, deep):
    far_bulk(j, k, deep, (0, 2, 3, 4, 5) if k == "avl" else (0,))
    for x, y in WIDE + (WIDER if deep else []):
        for op in (0, 2, 3, 4, 5) if k == "avl" else (0,):
            for h in (0, 1) if deep or x == (1004, 0) else (0,):
                j("bulk_" + k, pack(x), pack(y), op, CONTENT | h << 8)
    for n in (5, 7, 9) if deep else (5, 7):
        for op in (0, 2, 3, 4, 5) if k == "avl" else (0,):
            j("bulk_" + k, pack((1000 + n, 0)), 0, op | 2 << 4, CONTENT | 1 << 8)


def wide_salg(j, k, deep):
    far_salg(j, k, deep)
    for x, y in WIDE + (WIDER if deep else []):
        for what in range(5):
            for op in (0, 1, 2, 3) if what in (1, 2, 3) else (0,):
                if deep or what < 2 or x in ((1004, 0), (1005, 1)):
                    j("salg_" + k, pack(x), pack(y), what | op << 4, CONTENT)
    # a clone with two changes
    for n in (4, 5, 7, 9) if deep else (4, 5, 7):
        for what in range(4):
            for op in (0, 1, 2, 3) if what else (0,):
                if deep or what < 2 or n < 7:
                    j("salg_" + k, pack((1000 + n, 0)), 0, what | op << 4 | 2 << 8, CONTENT)


def split(j, k, g, deep, holds):
    for p in mid(k, deep) + ([(1005, 4), (1006, 5), (1007, 4), (1064, 0), (1064, 2)] if k == "avl" else [(1064, 0), (1064, 2)]):
        if p[1] >= 1 << 48:
            continue
        for h in holds:
            j("bulk_" + k, pack(p), 0, 1, g | (h if h == 0 else (1, 3, 4, 7)[p[0] % 4]) << 8)


def retains(j, k, g, deep, shares=(0, 1), changes=(0, 4)):
    for p in small(k, deep) + ([] if not deep else []):
        n = size(k, p)
        for sh in shares:
            for ch in changes:
                if n <= (9 if deep else 7):
                    j("ret_" + k, p[0], p[1], 0 | ch, g | sh << 8)
    for p in mid(k, deep) + [(1032, 0), (1032, 2)]:
        n = size(k, p)
        if n > 80:
            continue
        for sh in shares:
            for pr in (1, 2):
                if n > 20 and not deep and (pr == 1) == (sh == 0):
                    continue
                if n > 45 and not deep:
                    continue
                j("ret_" + k, p[0], p[1], pr | (4 if p[0] % 2 else 0), g | sh << 8)
    j("ret_" + k, 4, 0, 0 | 0xD << 8, g | shares[-1] << 8)
    j("ret_" + k, 3, 0, 4 | 0xE << 8, g)


def entries(j, k, g, deep, shares=(0, 1)):
    for p in mid(k, deep) + [(1032, 2), (1064, 0)]:
        for sh in shares:
            for how in range(10):
                if not deep and size(k, p) > 8 and how not in (0, 2, 4, 5, 8, 9):
                    continue
                if not deep and size(k, p) > 30 and how != 0 and how != 4:
                    continue
                s = sh if sh == 0 else (1, 4, 7)[how % 3]
                j("ent_" + k, p[0], p[1], how, g | s << 8)
        if shares[0] == 0 and g & CONTENT:
            for c in range(3):
                j("entl_" + k, p[0], p[1], c, g)


def extends(j, k, g, deep, shares=(0, 1)):
    for n in range(5 if deep else 4):
        j("ext_" + k, n, 0, 0, g)
        for p in ((0, 1, 2, 3, 5, 8) if n < 3 or deep and n < 4 else (0, 2)):
            for sh in shares:
                j("ext_" + k, n, p, 1, g | sh << 8)
    j("ext_" + k, 4, 0, 0, g)
    if k != "fix":
        j("ext_" + k, 3, 0, 2, g)
    if deep:
        for n in (1, 2):
            for p in (12, 14, 17):
                j("ext_" + k, n, p, 1, g | 1 << 8)
    if k == "avl":
        for n in range(4 if deep else 3):
            for p in (0, 2, 7):
                for sh in shares:
                    j("extr_avl", n, p, 0, g | sh << 8)
    else:
        j("ext_" + k, 1, 30, 1, g | shares[-1] << 8)
        j("ext_" + k, 1, 75, 1, g)


def iters(j, k, g, deep, kinds=(0, 16, 32), shares=(0, 1), early=True):
    fix = k[:3] == "fix"
    LATE, EVENT = 64, 32
    for kind in kinds:
        for w in [0] if fix else range(4 if kind == 0 else 3):
            for i, p in enumerate(small(k, deep) + mid(k, deep) + [(1040, 2)]):
                n = size(k, p)
                if n > 45 and not deep and (w or kind == 0):
                    continue
                # the methods with defaults
                for m in (6, 7, 8, 9) if n < 20 else (6 + i % 4,):
                    if n < 10 or n < 50 and (i + m) % 3 == 0 or deep:
                        for sh in (0,) if kind == 0 else shares:
                            if deep or n < 8 or sh == shares[-1]:
                                j("it_" + k, p[0], p[1], kind | w | m << 8, g | sh << 8)
                if n < (30 if deep else 16):
                    j("it_" + k, p[0], p[1], kind | w | 10 << 8, g | (shares[i % len(shares)] if kind else 0) << 8)
                # what is yielded outlives the iterator; other copies change meanwhile
                if kind:
                    for sh in shares if n < 20 or deep else shares[-1:]:
                        s = sh if sh == 0 else (1, 7, 4, 2)[i % 4]
                        j("it_" + k, p[0], p[1], kind | w | (LATE + (0, 1, 3)[i % 3]) << 8, g | s << 8)
                if n < (60 if deep else 30 if kind == 32 else 14) and shares[-1]:
                    for s in (1, 7) if n < 8 or deep else ((1, 7, 4)[i % 3],):
                        j("it_" + k, p[0], p[1], kind | w | (EVENT + LATE + (0, 1, 3, 0)[(i + w) % 4]) << 8, g | s << 8)
                        if n < 8:
                            j("it_" + k, p[0], p[1], kind | w | (EVENT + 3) << 8, g | s << 8)
                        if n < 6:
                            j("it_" + k, p[0], p[1], kind | w | (EVENT + 16 + 3) << 8, g | s << 8)
    for kind in kinds:
        for w in ([0] if fix else range(4 if kind == 0 else 3)):
            # every choice of ends
            for p in small(k, deep):
                n = size(k, p)
                if n > (10 if deep else 7):
                    continue
                for sh in shares if kind else shares[:1]:
                    j("it_" + k, p[0], p[1], kind | w | 2 << 8, g | sh << 8)
                    if early and kind and n <= 6:
                        j("it_" + k, p[0], p[1], kind | w | (2 + 16) << 8, g | sh << 8)
            # longer ones: forwards, backwards, alternately, some from each end
            for p in mid(k, deep) + [(1040, 0), (1064, 2)]:
                n = size(k, p)
                if n > 45 and not deep and w:
                    continue
                for sh in shares if kind else shares[:1]:
                    s = sh if sh == 0 else (1, 2, 4, 5, 7)[p[0] % 5]
                    for plan in ((0, 1, 3, 4, 5) if deep or w == 0 and n < 15 else ((3, 4) if w % 2 else (5, 3))):
                        if plan >= 4 and n > 30 and not deep:
                            continue
                        j("it_" + k, p[0], p[1], kind | w | plan << 8, g | s << 8)
                    if early and kind and (n < 20 or deep and n < 40):
                        for plan in ((0, 1, 3, 4, 5) if deep else (3 if w else (0, 1, 4)[p[0] % 3],)):
                            j("it_" + k, p[0], p[1], kind | w | (plan + 16) << 8, g | s << 8)


def ranges(j, k, g, deep, shares=(0, 1), muts=(0, 1), every=1):
    for p in small(k, deep):
        n = size(k, p)
        for mu in muts:
            for lk in range(3):
                for hk in range(3):
                    for sh in shares if mu else shares[:1]:
                        if n <= (6 if deep else 4):
                            j("rg_" + k, p[0], p[1], lk | hk << 2 | mu << 4 | 2 << 8, g | sh << 8)
                        if n <= (8 if deep else 6) and (sh or not mu) and (lk + hk) % 2 == mu:
                            j("rg_" + k, p[0], p[1], lk | hk << 2 | mu << 4 | 10 << 8, g | sh << 8)
    for i, p in enumerate(mid(k, deep) + [(1024, 0), (1024, 2)] + ([(1048, 2)] if deep else [])):
        n = size(k, p)
        if n > 50 or n > 26 and not deep or n > 8 and i % every and not deep:
            continue
        if n < 24:
            for x, (lk, hk) in enumerate(((0, 1), (1, 0), (0, 2), (2, 1)) if n < 8 or deep else ((0, 1), (2, 0)) if n < 15 else ((1, 2), (2, 0))):
                for mu in muts:
                    if mu:
                        for sh in shares:
                            j("rg_" + k, p[0], p[1], lk | hk << 2 | mu << 4 | (64 + (0, 1, 3)[(i + x) % 3]) << 8, g | sh << 8)
                    if shares[-1] and n < 12:
                        j("rg_" + k, p[0], p[1], lk | hk << 2 | mu << 4 | (64 * mu + 32 + (0, 1, 3)[(i + x) % 3]) << 8, g | (1, 7, 4)[(i + x) % 3] << 8)
                    if n < 9 or deep or lk + hk > 1 or i % 3 == 2 * mu:
                        j("rg_" + k, p[0], p[1], lk | hk << 2 | mu << 4 | (6 + (i + x) % 4) << 8, g | mu << 8)
        for mu in muts:
            for lk in range(3):
                for hk in range(3):
                    for sh in shares if mu else shares[:1]:
                        s = sh if sh == 0 else (1, 2, 4, 7)[(i + lk) % 4]
                        plans = (0, 1, 3) if deep or n <= 7 else ((0, 1, 3)[(i + lk + hk + sh) % 3],)
                        if n > 10 and not deep and (i + lk + hk + sh) % 2 and lk + hk:
                            continue
                        for plan in plans:
                            j("rg_" + k, p[0], p[1], lk | hk << 2 | mu << 4 | plan << 8, g | s << 8)


def srange(j, k, g, deep):
    for p in small(k, deep):
        n = size(k, p)
        for lk in range(3):
            for hk in range(3):
                if n <= (6 if deep else 4):
                    j("srange_" + k, p[0], p[1], lk | hk << 2 | 2 << 8, g)
    for i, p in enumerate(mid(k, deep) + [(1024, 2)]):
        n = size(k, p)
        if n > 26:
            continue
        for lk in range(3):
            for hk in range(3):
                if n > 10 and not deep and (i + lk + hk) % 2 and lk + hk:
                    continue
                j("srange_" + k, p[0], p[1], lk | hk << 2 | (0, 1, 3)[(i + lk + 2 * hk) % 3] << 8, g)


def spoint(j, k, g, deep, shares=(0,)):
    for sh in shares:
        ps = pre(k, deep, True)
        if k == "avl":
            ps = ps + FIBS + [(1064, 2)]
        if sh and not deep:
            ps = [p for i, p in enumerate(ps[sh % 3 :: 3]) if size(k, p) <= 45 or i % 4 == 0]
        for p in ps:
            j("spoint_" + k, p[0], p[1], 0xE, g | sh << 8)
    for p in small(k, deep):
        n = size(k, p)
        if n <= (7 if deep else 4):
            j("spoint_" + k, p[0], p[1], 0xEE, g | shares[-1] << 8)
        if n <= 1:
            j("spoint_" + k, p[0], p[1], 0xCCC, g)
    if deep:
        j("spoint_" + k, 0, 0, 0xEEE, g)
        j("spoint_" + k, 3, 0, 0xCCC, g | 1 << 8)


def ssplit(j, k, g, deep, shares=(0, 1)):
    for p in mid(k, deep) + [(1040, 0), (1064, 2)]:
        for sh in shares:
            j("ssplit_" + k, p[0], p[1], 0, g | sh << 8)


def salg(j, k, g, deep, holds=(0, 1), whats=(0, 1, 2, 3, 4)):
    if k == "avl":
        sh = [(0, 0), (1, 0), (2, 0), (4, 0), (6, 0)] + ([(3, 0), (12, 0)] if deep else [])
    else:
        n = NOF[k]
        sh = list(dict.fromkeys([(0, 0), (1, 0), (3, 0), (2 * n, 0), (2 * n + 1, 0)] + ([(4, 0)] if deep else [])))
    lim = 9 if deep else 7
    for what in whats:
        ops = (0, 1, 2, 3) if what in (1, 2, 3) else (0,)
        for op in ops:
            for x in sh:
                n = size(k, x)
                for y in sh:
                    m = size(k, y)
                    if n + m > lim and min(n, m) > 1 or min(n, m) > 3:
                        continue
                    for h in holds:
                        if h and (n == 0 or m == 0) and not deep:
                            continue
                        j("salg_" + k, pack(x), pack(y), what | op << 4, g | h << 8)
                for h in holds:
                    if n <= 7:
                        j("salg_" + k, pack(x), 0, what | op << 4 | 1 << 8, g | h << 8)
                    if n <= (4 if deep else 3):
                        j("salg_" + k, pack(x), 0, what | op << 4 | 2 << 8, g | h << 8)
            for p in [(1010, 2), (1024, 0)] + ([(1040, 2)] if deep else []):
                j("salg_" + k, pack(p), pack((1, 0)), what | op << 4, g | (1 if 1 in holds else 0) << 8)
                j("salg_" + k, pack((1, 0)), pack(p), what | op << 4, g)
                j("salg_" + k, pack(p), 0, what | op << 4 | 1 << 8, g | (1 if 1 in holds else 0) << 8)


def siters(j, k, g, deep, shares=(0, 1)):
    for w in range(3):
        for i, p in enumerate(small(k, deep) + mid(k, deep)):
            n = size(k, p)
            if n > 24 and not deep:
                continue
            for m in (6, 8, 9) if k == "avl" else (6, 7, 8, 9):
                if n < 10 or (i + m) % 3 == 0:
                    j("siter_" + k, p[0], p[1], w | m << 8, g | (w == 2) << 8)
            if n < (24 if deep else 14):
                j("siter_" + k, p[0], p[1], w | 10 << 8, g | (shares[i % len(shares)] if w == 2 else 0) << 8)
            if w == 2:
                for sh in shares:
                    j("siter_" + k, p[0], p[1], w | (64 + (0, 3)[i % 2]) << 8, g | sh << 8)
            if shares[-1]:
                for s in (1, 7) if n < 8 or deep else ((1, 7)[i % 2],):
                    j("siter_" + k, p[0], p[1], w | (32 + 64 + (0, 3)[i % 2]) << 8, g | s << 8)
                    if n < 5:
                        j("siter_" + k, p[0], p[1], w | (32 + 16 + 3) << 8, g | s << 8)
        for p in small(k, deep):
            n = size(k, p)
            if n > 7:
                continue
            for sh in shares if w == 2 else shares[:1]:
                j("siter_" + k, p[0], p[1], w | 2 << 8, g | sh << 8)
                if n <= 6:
                    j("siter_" + k, p[0], p[1], w | (2 + 16) << 8, g | sh << 8)
        for p in mid(k, deep) + [(1040, 2)]:
            n = size(k, p)
            if n > 45 and not deep:
                continue
            for sh in shares if w == 2 else shares[:1]:
                for plan in (0, 1, 3, 4, 5) if deep else ((0, 1, 3, 4, 5)[(p[0] + w + sh) % 5], 3):
                    j("siter_" + k, p[0], p[1], w | plan << 8, g | sh << 8)
                if n < 20 and w == 2:
                    j("siter_" + k, p[0], p[1], w | (3 + 16) << 8, g | sh << 8)


def sretain(j, k, g, deep, shares=(0, 1)):
    for p in small(k, deep):
        n = size(k, p)
        if n <= (9 if deep else 7):
            for sh in shares:
                j("sretain_" + k, p[0], p[1], 0, g | sh << 8)
    for p in mid(k, deep) + [(1032, 2)]:
        n = size(k, p)
        if n > 45:
            continue
        for sh in shares:
            for pr in (1, 2):
                if n > 12 and not deep and (pr == 1) == (sh == 0):
                    continue
                j("sretain_" + k, p[0], p[1], pr, g | sh << 8)


def sextends(j, k, g, deep):
    for n in range(5 if deep else 4):
        for c in (0, 1, 3):
            for p in (0, 1, 3, 5) if c and n < 4 else (0,):
                if not deep and n == 3 and p > 3:
                    continue
                j("sextend_" + k, n, p, c, g)
    j("sextend_" + k, 3, 0, 2, g)
    j("sextend_" + k, 1, 30, 1, g)


def stack(j, g, deep, helds=(0, 1, 2, 3, 4, 5)):
    for b in helds:
        for n in range(9 if deep else 6):
            j("stk", n, b, 0xE, g)
            if n <= (5 if deep else 3):
                j("stk", n, b, 0xEE, g)
            if n <= (3 if deep else 2):
                j("stk", n, b, 0xDDD, g)
        for n in (20, 40):
            j("stk", n, b, 0xE, g)
        if deep:
            j("stk", 2, b, 0xEEE, g)
            j("stk", 1, b, 0xDDDD, g)


def stacks_more(j, g, deep):
    for n in range(4):
        j("stack_two", n, 0, 0xDD, g)
        j("stack_two", n, 0, 0xE, g)
        if n < 3:
            j("stack_two", n, 0, 0xCCC, g)
        if deep:
            j("stack_two", n, 0, 0xEE, g)
    for n in (0, 1, 2, 3, 7, 30):
        for c in range(3):
            j("stack_from", n, 0, c, g)


def serde(j, k, g, deep):
    for a in (0, 1, 2, 3, 5, 8, 20, 60) if k != "set" else (0, 1, 2, 4, 7, 11, 50, 334):
        j("sro_" + k, a, 0, 0, g)
    j("sro_" + k, 1040, 2, 0, g)
    big = [4, 0xFFFFFFFF, 0xFFFFFFFF | 1 << 33, 0xFFFFFFFF | 16 << 33, 0x80000000, 0xFFFFFFFE]
    for a in (0, 1, 2, 3):
        for c in [0, 1, 3] + big:
            j("sri_" + k, a, 0, c, g)
        j("sri_" + k, a, 0, 1 | 1 << 32, g)
    if deep:
        for c in (0, 1, 3):
            j("sri_" + k, 4, 0, c, g)
    for a in (5, 9, 20):
        for b in (1, 2, 3, 4):
            for c in [0, 1, 3] + big[:3]:
                if b == 3 and (a == 20 and c == 3 or a == 9 and c == 3 and not deep):
                    continue
                if a == 20 and c == 3 and not deep:
                    continue
                j("sri_" + k, a, b, c, g)
    j("sri_" + k, 5, 1, 1 | 1 << 32, g)
    j("sri_" + k, 5, 3, 0 | 1 << 32, g)
    j("sri_" + k, 5, 3, 3 | 1 << 32, g)
    for a in (40, 100):
        for b in (1, 2, 4):
            for c in (0, 1, 4, 4 + a // 2, 4 + a + 7):
                j("sri_" + k, a, b, c, g)


def cmps(j, k, deep):
    h, hs = ("cmp_", "cmps_") if k[0] != "s" else ("scmp_", None)
    k2 = k[1:] if k[0] == "s" else k
    if k2 == "avl":
        sh = [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (6, 0), (9, 0)]
    else:
        n = NOF[k2]
        sh = list(dict.fromkeys([(0, 0), (1, 0), (2, 0), (3, 0), (2 * n + 1, 0), (2 * n + 1, n), (1004, 1), (3 * n + 2, 0)]))
    for x in sh:
        for y in sh:
            if size(k2, x) + size(k2, y) > (20 if deep else 14):
                continue
            j(h + k2, pack(x), pack(y), 0, CONTENT)
            if h == "cmp_" and k2 == "avl":
                j("hash_avl", pack(x), pack(y), 0, CONTENT)
    if hs:
        for p in small(k2, deep):
            n = size(k2, p)
            j(hs + k2, p[0], p[1], 0, CONTENT)
            j(hs + k2, p[0], p[1], 1, CONTENT)
            if n <= (7 if deep else 3):
                j(hs + k2, p[0], p[1], 2, CONTENT)
        j(hs + k2, 1030, 2, 1, CONTENT)


def pans(j, deep):
    g = DROP | ISO
    F = (60 if deep else 30) << 16
    f = (30 if deep else 18) << 16
    for k in MAPS + ["fix"]:
        for i, p in enumerate(small(k, deep) + ([] if k == "avl" else [(L3[NOF[k]], 0)])):
            n = size(k, p)
            for op in range(5):
                for sh in (0, 1, 4) if deep else ((0, 1) if n < 8 else (1,)):
                    if not deep and n > 20 and op not in (0, 1):
                        continue
                    j("pan_" + k, p[0], p[1], op, g | sh << 8 | (F if n > 6 else f))
            for c in (0, 1):
                for sh in (0, 1):
                    if n <= 16 or deep and n < 30:
                        j("pani_" + k, p[0], p[1], c, g | sh << 8 | (F if n > 6 else f))
        if k == "fix":
            for p in small(k, deep):
                n = size(k, p)
                for op in (0, 1):
                    j("pan_fixw", p[0], p[1], op, g | 1 << 8 | (F if n > 6 else f))
                if n < 16:
                    j("pani_fixw", p[0], p[1], 1, g | 1 << 8 | (F if n > 6 else f))
            continue
        for op in range(16):
            for sh in (0, 1):
                for a, b in ((2, 2), (3, 4)) if not deep else ((2, 2), (3, 4), (5, 2), (4, 6), (8, 3)):
                    if op == 8 and size(k, (a, 0)) > 5 or op == 13 and a > 2 and not deep:
                        continue
                    j("panf_" + k, a, b, op, g | sh << 8 | f)
        for op in (0, 4, 6, 7, 9, 10, 11) + ((12, 13, 14, 15) if deep else ()):
            j("panf_" + k, pack((L3.get(NOF[k], 30), 0)), 2, op, g | 1 << 8 | F)
    for op in range(5):
        for sh in (0, 1):
            j("pana", 3, 3, op, g | sh << 8 | F)
            j("pana", 6, 4, op, g | sh << 8 | F)
            if deep:
                j("pana", 10, 6, op, g | sh << 8 | F)
    for c in (0, 1):
        for sh in (0, 1):
            j("pane", 4, 0, c, g | sh << 8 | f)
            j("pane", 8, 0, c, g | sh << 8 | f)
    for c in range(8):
        for b in (0, 1):
            for n in (1, 3) if not deep else (0, 1, 2, 3, 5, 8):
                j("pank", n, b, c, g | f)
    for k in SETS:
        for op in list(range(11)) + list(range(16, 28)):
            for sh in (0, 1):
                for a, b in ((3, 2),) if not deep else ((3, 2), (5, 3), (7, 4)):
                    j("pans_" + k, a, b, op, g | sh << 8 | (f if not deep else F))


def full(k):
    """a full root above full, minimal and other leaves"""
    if k == "avl":
        return [(1007, 4), (1007, 5), (1100, 0)]
    n = NOF[k]
    m = 2 * n + 2
    a = even(n, m)
    return [(a, hexdigits(ds[:15])) for ds in ([], [n + 1] * m, [n + 1, 0] * m, [1, n + 1] * m)]


def lazies(j, deep):
    nine(j, LAZY, deep)
    for k in MAPS + ["fix"]:
        for p in [(1200, 2), (1200, 0)] if not deep else [(1200, 2), (1200, 0), (1200, 1), (1200, 3), (1400, 2), (1100, 2)]:
            for op in (2, 3, 5, 6, 7) if k != "fix" else (2, 3, 5):
                if p[1] == 0 and op in (6, 7) and not deep:
                    continue
                j("lazy_" + k, p[0], p[1], op, LAZY)
        for p in [(1040, 2)] + ([(1060, 0), (1060, 1)] if deep else []):
            for o in (0x22, 0x32, 0x23, 0x33):
                if not deep and o in (0x32, 0x33) and k in ("b5", "fix"):
                    continue
                j("lazy_" + k, p[0], p[1], o, LAZY)
        if k != "fix":
            for p in [(1200, 2), (0, 0), (1, 0), (1030, 0)]:
                j("reads_" + k, p[0], p[1], 0, LAZY)
        for p in full(k):
            j("pt_" + k, p[0], p[1], 0xE, LAZY | 1 << 8)
            if k != "fix":
                for how in (0, 4):
                    j("ent_" + k, p[0], p[1], how, LAZY | 1 << 8)
        for p in mid(k, deep) if k != "fix" else small(k, deep):
            if size(k, p) > 3:
                j("pt_" + k, p[0], p[1], 0xE, LAZY | 1 << 8)
            j("pt_" + k, p[0], p[1], 0xE, LAZY)
            j("pt_" + k, p[0], p[1], 0xE, LAZY | 8 << 8)
        for p in small(k, deep):
            if size(k, p) <= 4:
                j("pt_" + k, p[0], p[1], 0xDC, LAZY)
    for k in SETS:
        for op in range(1, 8):
            j("slazy_" + k, 1100, 2, op, LAZY)
        for p in small(k, deep):
            j("spoint_" + k, p[0], p[1], 0xE, LAZY)
            j("spoint_" + k, p[0], p[1], 0xE, LAZY | 8 << 8)
    for k in MAPS:
        for kind in (0, 16):
            for w in range(3):
                for p in small(k):
                    j("it_" + k, p[0], p[1], kind | w | 3 << 8, LAZY)
        for mu in (0, 1):
            for p in small(k)[:6]:
                j("rg_" + k, p[0], p[1], 0 | 1 << 2 | mu << 4 | 3 << 8, LAZY)
    stack(j, LAZY, deep)
    for n in range(3):
        j("stack_two", n, 0, 0xDD, LAZY)
    for k in ("avl", "b1", "b2", "b5", "set"):
        for n in (1, 3, 12):
            j("sro_" + k, n, 0, 0, LAZY)
    for k in ("avl", "b1", "b2"):
        for p in ((1, 0), (7, 0)):
            for c in (0, 2):
                j("dbg_" + k, p[0], p[1], c, LAZY)
            j("dbgs_" + k, p[0], p[1], 0, LAZY)
    for n in (1, 3):
        j("dbg_stack", n, 0, 0, LAZY)
    # comparisons, relations and lazy set operations only read
    for k in MAPS:
        for p in small(k, deep):
            if size(k, p) <= 5:
                j("cmps_" + k, p[0], p[1], 1, LAZY)
        for n in (1, 3):
            j("cmp_" + k, pack((n, 0)), pack((n, 0)), 0, LAZY)
            if k == "avl":
                j("hash_avl", pack((n, 0)), pack((n, 0)), 0, LAZY)
    for k in SETS:
        for n in (1, 3):
            j("scmp_" + k, pack((n, 0)), pack((n, 0)), 0, LAZY)
            for op in range(5):
                what = 0 if op == 4 else 1 | op << 4
                j("salg_" + k, pack((n, 0)), pack((2, 0)), what, LAZY | 1 << 8)
                j("salg_" + k, pack((n, 0)), 0, what | 1 << 8, LAZY | 1 << 8)
    for a in range(4):
        for b in range(4):
            j("stack_cmp", a, b, 0, LAZY)
            for c in range(1, a + 2):
                j("stack_cmp", a, b, c, LAZY)


def wide(j, g, deep):
    """fixed::BTreeMap with keys larger than a word"""
    ps = mid("fix", deep)
    for i, p in enumerate(ps):
        if size("fix", p) < 80 or deep:
            for sh in (0, 1) if i % 2 or deep else (i // 2 % 2,):
                j("pt_fixw", p[0], p[1], 0xE, g | sh << 8)
    for p in small("fix"):
        j("it_fixw", p[0], p[1], 0 | 3 << 8, g)
        j("it_fixw", p[0], p[1], 16 | 3 << 8, g | 1 << 8)
        j("it_fixw", p[0], p[1], 32 | (16 + 3) << 8, g)
        j("it_fixw", p[0], p[1], 32 | (16 + 3) << 8, g | 1 << 8)
    j("two_fixw", 4, 0, 2 | 1 << 4, g)
    j("pt_fixw", 0, 0, 0xCCC, g)
    j("pt_fixw", 1064, 2, 0xE, g | 1 << 8)


def nine(j, g, deep):
    """larger nodes"""
    k = "b9"
    ps = [(9, 0), (17, 0), (18, 0), (19, 0), (19, 9), (19, 9 << 4), (19, 0x99), (29, 0), (29, 0x909), (39, 0), (189, 0), (199, 0)]
    sh1 = 1 if g & ~(BAL | CONTENT) else 0
    for i, p in enumerate(ps):
        for sh in (0, 1) if deep else (sh1,) if p[0] > 100 else (0, 1):
            j("pt_" + k, p[0], p[1], 0xE, g | sh << 8)
        if p[0] < 100:
            j("ret_" + k, p[0], p[1], 1, g | 1 << 8)
            if g & (CONTENT | BAL | DROP | ISO):
                j("bulk_" + k, pack(p), 0, 1, g | sh1 << 8)
    j("pt_" + k, 0, 0, 0xCCC, g)
    j("pt_" + k, 1150, 2, 0xE, g | 1 << 8)
    k = "b20"
    for p in [(20, 0), (39, 0), (40, 0), (41, 0), (41, 15), (41, 15 << 4), (1080, 0), (1082, 1), (62, 0), (1100, 2)] + ([(1230, 2), (1300, 0)] if deep else []):
        for sh in (0, 1) if deep else (sh1,):
            j("pt_" + k, p[0], p[1], 0xE, g | sh << 8)
    j("ret_b20", 40, 0, 1, g | 1 << 8)
    if g & (CONTENT | BAL | DROP | ISO):
        j("bulk_b20", pack((41, 15)), 0, 1, g | sh1 << 8)


def nine_more(j, g, deep, what):
    """iterators, ranges and entries of larger nodes"""
    ps = [(9, 0), (19, 0), (19, 0x99), (29, 0x909), (39, 0)]
    if what == "it":
        for kind in (0, 16, 32):
            for i, p in enumerate(ps + [(199, 0)]):
                for m in (0, 1, 3, 5, 6) if p[0] < 30 else (3,):
                    j("it_b9", p[0], p[1], kind | m << 8, g | (1 if kind and i % 2 else 0) << 8)
                if kind:
                    j("it_b9", p[0], p[1], kind | (16 + 3) << 8, g | 1 << 8)
        for kind in (0, 16, 32):
            j("it_b20", 41, 15, kind | 3 << 8, g | 1 << 8)
            j("it_b20", 1100, 2, kind | 1 << 8, g)
    elif what == "rg":
        for k, qs in (("b9", ps), ("b20", [(40, 0), (41, 15), (1090, 2)])):
            for i, p in enumerate(qs):
                for mu in (0, 1):
                    for lk, hk in ((0, 0), (1, 1), (1, 2), (0, 2), (2, 1)) if k == "b9" else ((0, 2), (2, 1)):
                        j("rg_" + k, p[0], p[1], lk | hk << 2 | mu << 4 | 3 << 8, g | (mu if i % 2 else 0) << 8)
    else:
        for p in ps:
            for how in (0, 4, 5, 8):
                for sh in (0, 1):
                    j("ent_b9", p[0], p[1], how, g | sh << 8)


def lays(j, deep):
    g = CONTENT | DROP
    for i in range(4):
        n = "lay%d" % i
        j(n, 1000, 0, 3 if deep else 2, g)
        for a in (1001, 1009, 1010, 1011, 1012, 1017):
            j(n, a, 0, 1, g)
        j(n, 1010, 0, 2, g)
        j(n, 1036, 2, 1, g)
        j(n, 1048, 0, 1, g)
        if i == 1 or deep:
            j(n, 1072, 0, 1, g)
        if deep:
            for a, b in ((1011, 0), (1012, 1)):
                j(n, a, b, 2, g)
            j(n, 1024, 2, 2, g)
            j(n, 1090, 1, 1, g)


def typed(j, ks, ops, deep):
    """other element types"""
    for k in ks:
        for t in range(4):
            for n in (0, 1, 2, 3, 4, 5) if deep else (1, 3):
                for o in ops:
                    if n < 5 or o < 15:
                        for b in (0, 1, 2, 16, 17, 18) if deep else ((n + t) % 3, 16 + (n + t + 1) % 3):
                            j("t%s%d" % (k, t), n, b, o, 31)


def jobs(prop, deep):
    j = J()
    for props, ks, ops in (
        ("C01", "a", (0, 1, 2, 3, 4)),
        ("C03", "b", (0, 1, 2, 3, 4)),
        ("C19", "ab", (5, 6, 7, 8, 9)),
        ("C08", "ab", (10, 11)),
        ("C09", "ab", (12,)),
        ("C12", "ab", (13,)),
        ("C10", "a", (14, 15, 18, 19, 20, 21)),
        ("C11", "b", (14, 15)),
        ("C05", "ab", tuple(range(18))),
        ("C16", "ab", (16,)),
        ("C21", "ab", (17,)),
        ("C07", "ab", (1, 2, 3, 4, 5, 11, 13, 14, 15, 18)),
    ):
        if prop == props:
            typed(j, ks, ops, deep)
    if prop == "C01":
        point(j, "avl", CONTENT, deep, shares=range(8) if deep else (0, 1, 4, 7))
    elif prop == "C02":
        g = BAL
        point(j, "avl", g, deep, shares=(0, 1, 4))
        bulk(j, "avl", g, deep, holds=(0, 1) if deep else (1,))
        retains(j, "avl", g, deep, changes=(0,))
        entries(j, "avl", g, deep, shares=(0,))
        extends(j, "avl", g, deep)
        spoint(j, "avl", g, deep)
        ssplit(j, "avl", g, deep)
        salg(j, "avl", g, deep, holds=(1,), whats=(2, 3, 4))
        sretain(j, "avl", g, deep)
        sextends(j, "avl", g, deep)
        serde(j, "avl", g, deep)
        if deep:
            serde(j, "set", g, deep)
    elif prop == "C03":
        for k in BT:
            point(j, k, CONTENT, deep, shares=(0, 1, 4) if deep else (0, 1))
        nine(j, CONTENT, deep)
    elif prop == "C04":
        g = BAL
        nine(j, g, deep)
        for k in BT:
            point(j, k, g, deep, shares=(0, 1) if deep else (0,))
            bulk(j, k, g, deep, holds=(1,))
            retains(j, k, g, deep, shares=(0,) if not deep else (0, 1), changes=(0,))
            entries(j, k, g, False, shares=(0,))
            extends(j, k, g, deep, shares=(0,))
            if deep:
                serde(j, k, g, deep)
        for k in BT[:2] + ["b5"]:
            spoint(j, k, g, False)
            ssplit(j, k, g, False, shares=(0,))
            salg(j, k, g, False, holds=(0,), whats=(2, 4))
            sretain(j, k, g, False, shares=(0,))
            sextends(j, k, g, False)
    elif prop == "C05":
        g = ISO
        nine(j, g, deep)
        for k in MAPS + ["fix"]:
            point(j, k, g, False, shares=(1, 2, 3, 4, 5, 6, 7), big=deep or k == "avl")
            for p in small(k, deep):
                j("pt_" + k, p[0], p[1], 0xE, g | 9 << 8)
            for p in small(k, deep)[:: 1 if deep else 2]:
                n = size(k, p)
                if n <= 5 or p == (10, 0) or deep and n <= 11:
                    j("two_" + k, p[0], p[1], 2 | 1 << 4, g)
                if n <= 2 or deep and n < 6:
                    j("two_" + k, p[0], p[1], 3, g)
            iters(j, k, g, deep, kinds=(16, 32), shares=(1,))
            if k == "fix":
                continue
            ranges(j, k, g, deep, shares=(1,), muts=(1,), every=2)
            retains(j, k, g, deep, shares=(1,), changes=(4,))
            entries(j, k, g, deep, shares=(1,))
            extends(j, k, g, deep, shares=(1,))
            bulk(j, k, g, deep, holds=(1,))
        for k in SETS:
            spoint(j, k, g, False, shares=(1, 2, 3, 4, 7) if deep else (1, 7))
            ssplit(j, k, g, deep, shares=(1,))
            salg(j, k, g, deep, holds=(1,), whats=(2, 3, 4))
            sretain(j, k, g, deep, shares=(1,))
            siters(j, k, g, deep, shares=(1,))
        for p in small("avl", deep):
            for c in (0, 1):
                j("each_avl", p[0], p[1], c, g | 1 << 8)
        stack(j, g, deep, helds=(1, 2, 3, 5))
        stacks_more(j, g, deep)
    elif prop == "C06":
        lazies(j, deep)
    elif prop == "C07":
        g = DROP
        nine(j, g, deep)
        for k in MAPS:
            point(j, k, g, False, shares=(0, 1, 4, 7), big=deep or k == "avl")
            for p in small(k, deep):
                j("pt_" + k, p[0], p[1], 0xE, g | 9 << 8)
            iters(j, k, g, deep, kinds=(16, 32))
            ranges(j, k, g, False, shares=(1,), muts=(1,), every=3)
            retains(j, k, g, deep, changes=(4,))
            entries(j, k, g, False, shares=(1,))
            extends(j, k, g, deep)
            bulk(j, k, g, deep, holds=(0, 1) if deep else (1,))
        for k in SETS:
            spoint(j, k, g, False, shares=(0, 1))
            ssplit(j, k, g, False)
            salg(j, k, g, False, holds=(1,), whats=(1, 2, 3, 4))
            sretain(j, k, g, False, shares=(1,))
            siters(j, k, g, False)
            sextends(j, k, g, False)
        stack(j, g, deep)
        stacks_more(j, g, deep)
        for k in ("avl", "b1", "b5", "set"):
            serde(j, k, g, False)
    elif prop == "C08":
        g = CONTENT | HINT
        for k in MAPS:
            iters(j, k, g, deep)
        nine_more(j, g, deep, "it")
        for k in SETS:
            siters(j, k, g, deep)
            for n in (0, 1, 3, 5):
                for m in (0, 1, 2, 4):
                    for op in range(4):
                        if n + m < 7:
                            j("salg_" + k, pack((n, 0)), pack((m, 0)), 1 | op << 4, g)
        for p in small("avl", deep):
            for c in (0, 1):
                j("each_avl", p[0], p[1], c, g)
                j("each_avl", p[0], p[1], c, g | 1 << 8)
            j("each_avl", p[0], p[1], 2, g | 1 << 8)
        for b in (0, 1, 2):
            for n in (0, 1, 2, 3, 6, 30):
                j("stk", n, b, 7, g)
                j("stk", n, b, 10, g)
                if n < 4:
                    j("stk", n, b, 0x77, g)
                    j("stk", n, b, 0xA7, g)
                    j("stk", n, b, 0x7D, g)
                    j("stk", n, b, 0xAD, g)
        stacks_more(j, g, deep)
        for n in range(7):
            j("it_fix", n, 0, 0 | 2 << 8, g)
    elif prop == "C09":
        for k in MAPS:
            ranges(j, k, CONTENT | HINT | ISO, deep)
        nine_more(j, CONTENT | HINT | ISO, deep, "rg")
        for k in SETS:
            srange(j, k, CONTENT | HINT, deep)
    elif prop == "C10":
        bulk(j, "avl", CONTENT, deep)
        wide_bulk(j, "avl", deep)
    elif prop == "C11":
        for k in BT:
            bulk(j, k, CONTENT, deep)
            if k != "b5" or deep:
                wide_bulk(j, k, deep)
    elif prop == "C12":
        for k in MAPS:
            retains(j, k, CONTENT, deep)
        for k in SETS:
            sretain(j, k, CONTENT, deep)
    elif prop == "C13":
        for k in SETS:
            salg(j, k, CONTENT | ISO, deep)
            wide_salg(j, k, deep)
    elif prop == "C14":
        for k in SETS:
            spoint(j, k, CONTENT, deep, shares=(0, 1, 4, 7) if deep else (0, 1))
            ssplit(j, k, CONTENT, deep)
    elif prop == "C15":
        stack(j, CONTENT, deep)
        stacks_more(j, CONTENT, deep)
    elif prop == "C16":
        for k in MAPS:
            cmps(j, k, deep)
        for k in SETS:
            cmps(j, "s" + k, deep)
        for k in MAPS:
            for n in range(7 if deep else 5):
                if k == "b3":
                    continue
                for b in (0, 1):
                    for c in range(1, 7):
                        if n or c not in (3, 4):
                            j("part_" + k, n, b, c, CONTENT)
                    for m in range(7 if deep else 4):
                        if n + m < (9 if deep else 6):
                            j("part_" + k, n, b | (m % 2) << 1 | m << 4, 0, CONTENT)
        for a in range(6):
            for b in range(6):
                for c in range(5):
                    if not (c in (1, 2) and b) and (a + b < 8 or c) and (c != 4 or b <= a):
                        j("part_stack", a, b, c, CONTENT)
        for a in list(range(5)) + [8]:
            for b in list(range(5)) + [8]:
                j("stack_cmp", a, b, 0, CONTENT)
                if b < 4:
                    for c in range(1, min(a, 4) + 2):
                        j("stack_cmp", a, b, c, CONTENT)
                        j("stack_cmp", a, b, c | 16, CONTENT)
    elif prop == "C17":
        for k in ["avl", "b1", "b2", "b5", "set"]:
            serde(j, k, CONTENT, deep)
    elif prop == "C18":
        point(j, "fix", CONTENT, deep, shares=range(8) if deep else (0, 1, 2, 4, 7))
        iters(j, "fix", CONTENT | HINT, deep)
        wide(j, CONTENT | HINT, deep)
        extends(j, "fix", CONTENT, deep)
        for p in small("fix", deep):
            if size("fix", p) <= (11 if deep else 10):
                j("two_fix", p[0], p[1], 2 | 1 << 4, CONTENT)
    elif prop == "C19":
        for k in MAPS:
            entries(j, k, CONTENT, deep)
        nine_more(j, CONTENT, deep, "ent")
    elif prop == "C20":
        point(j, "fix", DROP, deep, shares=range(8) if deep else (0, 1, 2, 4, 7))
        iters(j, "fix", DROP, deep)
        wide(j, DROP, deep)
        extends(j, "fix", DROP, deep)
        for p in small("fix", deep):
            if size("fix", p) <= (11 if deep else 10):
                j("two_fix", p[0], p[1], 2 | 1 << 4, DROP)
        lays(j, deep)
    elif prop == "C21":
        for k in MAPS + ["fix"]:
            extends(j, k, CONTENT, deep)
        for k in SETS:
            sextends(j, k, CONTENT, deep)
        for n in (0, 1, 2, 3, 7, 30):
            for c in range(3):
                j("stack_from", n, 0, c, CONTENT)
    elif prop == "C22":
        pans(j, deep)
    elif prop == "C23":
        threads(j, deep)
    elif prop == "C24":
        debugs(j, deep)
    else:
        raise SystemExit("no such check: " + prop)
    huge(j, prop, deep)
    return list(dict.fromkeys(two_clones(t) for t in j))


def two_clones(t):
    """some of the jobs with one unchanged clone get two of them"""
    h, a, b, c, d = t
    if h.split("_")[0] in ("pt", "it", "rg", "ret", "ent", "ext", "spoint", "siter", "sretain") and d >> 8 & 15 == 1 and (a + 3 * b + c // 16) % 3 == 0:
        d += 9 << 8
    return h, a, b, c, d


def threads(j, deep):
    """two threads: pairs of operations on copies that share nodes; c counts
    the preemptions in its upper bits"""
    ALL = range(14)
    FIX = (0, 1, 2, 3, 6, 8, 9, 10, 11)
    MAIN = (0, 1, 2, 3, 7, 10)

    def pairs(k, n, order, pre, c, ops):
        for x in ops:
            for y in ops:
                if k.startswith("fix") and not (x in FIX and y in FIX):
                    continue
                # the copies are alike unless the second has changed
                if y >= x or c == 2:
                    j("thr_" + k, n | order << 4, x | y << 4, c | pre << 4, DROP)

    p = 3 if deep else 2
    for k in ("avl", "b1", "fix"):
        pairs(k, 3, 1, p, 0, ALL)
        pairs(k, 1, 1, p + 1, 0, MAIN)
        for c in (1, 2):
            pairs(k, 3, 0, p, c, MAIN)
    for k, n, order in (("avl", 7, 2), ("b1", 7, 0), ("b2", 9, 0), ("fix", 11, 0)):
        pairs(k, n, order, p - 1, 0, ALL if deep else MAIN)
        pairs(k, n, order, 1, 2, ALL if deep else (0, 1, 3, 10))
    if deep:
        for k, n, order in (("avl", 12, 2), ("b1", 15, 0), ("b2", 18, 0), ("fix", 20, 0)):
            pairs(k, n, order, 1, 0, MAIN)
    for k in ("avl", "b1", "fix"):
        for n in (0, 1, 3) + ((5, 7) if deep else ()):
            j("thl_" + k, n, 0, p << 4, DROP)
    for n in (3, 4) if deep else (3,):
        for x in range(4):
            for y in range(x, 4):
                j("tha", n | 2 << 4, x | y << 4, (p - 1) << 4, DROP)


def debugs(j, deep):
    """Debug output: c = 1 for {:#?}, 2 with a clone, from bit 8 how many
    lengths of a writer that fails"""
    for k in ("avl", "b1", "b2", "b5") if deep else ("avl", "b1", "b2"):
        for a, b in pre(k, deep):
            for c in range(4):
                j("dbg_" + k, a, b, c, CONTENT)
        for a, b in small(k, deep):
            for c in (2, 3):
                j("dbg_" + k, a, b, c | (160 << 8), CONTENT)
    for k in ("avl", "b1", "b2"):
        for a, b in pre(k, deep):
            for c in (0, 1):
                j("dbgs_" + k, a, b, c, CONTENT)
        for a, b in small(k, deep):
            j("dbgs_" + k, a, b, 100 << 8, CONTENT)
    for n in list(range(20 if deep else 9)) + [15, 33, 130, 300]:
        for c in (0, 1):
            j("dbg_stack", n, 0, c, CONTENT)
            if n < 9:
                j("dbg_stack", n, 0, c | (100 << 8), CONTENT)
                j("dbg_stack", n, 0, c | 4, CONTENT)
                j("dbg_stack", n, 0, c | 8 | (n + 2) << 8, CONTENT)
    for k in ("avl", "b1", "b2"):
        for a, b in small(k, deep):
            n = size(k, (a, b))
            for c in (0, 1):
                j("dbg_" + k, a, b, c | 4, CONTENT)
                j("dbg_" + k, a, b, c | 8 | (2 * n + 2) << 8, CONTENT)
                j("dbgs_" + k, a, b, c | 4, CONTENT)
                j("dbgs_" + k, a, b, c | 8 | (n + 2) << 8, CONTENT)
    for k in ("b1", "b2"):
        for a, b in pre(k, deep) if deep else mid(k):
            for c in range(5):
                for shared in (0, 8):
                    j("dbgi_" + k, a, b, c | shared, CONTENT)


def huge(j, prop, deep):
    """more elements than a byte counts"""
    p, q = 1300, pack((1300, 2))
    if prop in ("C01", "C03", "C18"):
        for k in {"C01": ("avl",), "C03": ("b1", "b2", "b5"), "C18": ("fix",)}[prop]:
            for op in (1, 2, 3, 5):
                j("pt_" + k, p, 2, op, CONTENT)
            if deep:
                for op in (2, 3):
                    j("pt_" + k, p, 0, op, CONTENT | 4 << 8)
    if prop in ("C08", "C18"):
        for k in ("avl", "b1", "b2", "b5") if prop == "C08" else ("fix",):
            for kind in (0, 16, 32):
                for plan in (0, 1, 3):
                    j("it_" + k, p, 2, kind | plan << 8, CONTENT | ISO | HINT | (kind > 0) << 8)
        if prop == "C08":
            for k in SETS:
                for w in range(3):
                    j("siter_" + k, p, 2, w | 3 << 8, CONTENT | ISO | HINT)
    if prop == "C09":
        for i, k in enumerate(("avl", "b1", "b5") if not deep else MAPS):
            for x, (lk, hk) in enumerate(((0, 2), (2, 0), (1, 2), (2, 1))):
                if deep or (i + x) % 2:
                    j("rg_" + k, p, 2, lk | hk << 2 | 3 << 8, CONTENT | HINT)
                if deep or not (i + x) % 2:
                    j("rg_" + k, p, 2, lk | hk << 2 | 1 << 4 | 3 << 8, CONTENT | HINT | ISO | 1 << 8)
    if prop in ("C10", "C11"):
        for k in ("avl",) if prop == "C10" else ("b1", "b2", "b5"):
            j("bulk_" + k, q, 0, 1, CONTENT | 1 << 8)
    if prop == "C14":
        for k in SETS:
            for op in (1, 2, 3):
                j("spoint_" + k, p, 2, op, CONTENT)
            j("ssplit_" + k, p, 2, 0, CONTENT)
    if prop == "C15":
        for b in (0, 1):
            j("stk", 300, b, 0xE, CONTENT)
        for c in range(3):
            j("stack_from", 300, 0, c, CONTENT)
    if prop == "C16" and deep:
        for k in ("avl", "b1", "b2", "b5"):
            j("cmps_" + k, p, 2, 1, CONTENT)
    if prop == "C17":
        for k in ("avl", "b1", "set"):
            j("sro_" + k, p, 2, 0, CONTENT)
            for b in (1, 2, 4):
                j("sri_" + k, 300, b, 1, CONTENT)
    if prop == "C19":
        for k in ("avl", "b1", "b2", "b5"):
            j("ent_" + k, p, 2, 0, CONTENT)
    if prop == "C24":
        for k in ("avl", "b1", "b2", "b5"):
            j("dbg_" + k, p, 2, 0, CONTENT)
        for k in ("avl", "b1", "b2"):
            j("dbgs_" + k, p, 2, 1, CONTENT)


def weight(t):
    """how long it may take, roughly"""
    try:
        return weight0(t)
    except IndexError:
        return 50


def weight0(t):
    h, a, b, c, d = t
    fam, k = h.split("_")[0], h.split("_")[-1]
    if k not in NOF:
        k = "fix" if fam.startswith("lay") else "avl"
    if fam in ("bulk", "salg", "cmp", "scmp", "hash", "ssplit"):
        return (size(k, (a & 0xFFFF, a >> 16)) + 1) * (size(k, (b & 0xFFFF, b >> 16)) + 1) if fam != "salg" else 50
    if fam.startswith("th"):
        return (a & 15) ** 2 * (4 if 8 in (b & 15, b >> 4) else 1) * (3 if k == "avl" else 1) * 4 ** (c >> 4)
    if fam in ("ext", "extr", "sextend"):
        return (a + 2) ** (a + 1) + b
    if fam in ("sro", "sri", "stack", "stk"):
        return a + 10 if b != 3 else 3000
    n = size(k, (a, b)) + 2
    if fam in ("pt", "spoint"):
        return n * n * n ** (len("%x" % c) - 1) * (2 if k in ("fix", "b5") else 1)
    if fam == "two":
        return n**4 * 4
    if fam.startswith("lay"):
        return n ** (1 + c) * 3
    if fam.startswith("pan"):
        return n * n * ((d >> 16) + 1)
    if fam in ("it", "sit", "ret", "sretain"):
        return n * n + (1 << min(n, 12) if (c >> 8 & 15) == 2 or fam in ("ret", "sretain") and c & 3 == 0 else 0)
    return n * n


PROPS = ["C%02d" % i for i in range(1, 25)]

if __name__ == "__main__":
    import sys

    for x in sorted(jobs(sys.argv[1], len(sys.argv) > 2 and sys.argv[2] == "thorough"), key=lambda j: -weight(j)):
        print(*x)
