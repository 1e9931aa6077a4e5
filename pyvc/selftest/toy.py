"""toy functions for the self test of the engine (not part of the verified code)"""


def count(l):
    n = 0
    for _ in l:
        n += 1
    return n


def last(l):
    r = 0
    for i in range(len(l)):
        r = l[i]
    return r


def total(l):
    s = 0
    for e in l:
        s = s + e
    return s


def total_but_first(l):
    s = 0
    for i, e in enumerate(l):
        if i > 0:
            s = s + e
    return s


def doubled(l):
    out = []
    for e in l:
        out.append(2 * e)
    return out


def rev(l):
    out = []
    for e in l:
        out.insert(0, e)
    return out


def find(l, x):
    for i, e in enumerate(l):
        if e == x:
            return i
    return -1


def matprod(A, B, C):
    return A * B * C


def wloop(n):
    i = 0
    while i < n:
        i += 1
    return i


def swap(l, i, j):
    l[i], l[j] = l[j], l[i]
    return l


def clobber(l, i):
    a = l
    a[i] = 0
    return l


def positives(l):
    out, n = [], 0
    for e in l:
        if e > 0:
            out.append(e)
            n += 1
    return out, n


def positives2(l):
    return [e for e in l if e > 0]


def positives_bad(l):
    out = []
    for e in l:
        if e >= 0:
            out.append(e)
    return out
