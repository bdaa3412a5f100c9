import numpy as np


def nested(a, n, m):
    for i in range(n):
        for j in range(m):
            a[j] = a[j] + 1
    return a


def nested2(a, n, m):
    s = 0
    for i in range(n):
        for j in range(m):
            s = s + a[j]
    return s


def alias_entry(a, n):
    b = a
    for i in range(n):
        b[0] = b[0] + a[0]
        a = a * 2
    return a, b


def alias_late(a, n):
    b = np.zeros(a.shape)
    for i in range(n):
        b = a
        b[0] = b[0] + 1
    return a


def swap(a, b, n):
    for i in range(n):
        a, b = b, a
        a[0] = a[0] + 1
    return a, b


def nested_dep(a, n, m):
    for i in range(n):
        t = a[i]
        for j in range(m):
            t = t * 2
        a[i] = t
    return a


def brk(a, n):
    k = 0
    for i in range(n):
        if a[i] > 0:
            break
        k = k + 1
    return k


def after(a, n):
    last = 0
    for i in range(n):
        last = a[i]
    return last


def mask(a):
    b = np.zeros(a.shape)
    b[a > 0] = a[a > 0]
    return b


def growing(n):
    r = []
    for i in range(n):
        r.append(i * i)
    return r
