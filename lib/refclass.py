"""Cross-section classification of EN 1993-1-1, Table 5.2, written from the
standard: limits of c/t per part and stress state."""
import math

INF = float('inf')


def eps(fy):
    return math.sqrt(235.0 / fy)


def cls(r, limits):
    """Set of admissible classes (both, at a limit)."""
    def one(x):
        for i, lim in enumerate(limits):
            if x <= lim:
                return i + 1
        return 4
    return {one(r * (1 - 1e-9)), one(r * (1 + 1e-9))}


def outstand(r, e):
    return cls(r, (9 * e, 10 * e, 14 * e))


def internal_comp(r, e):
    return cls(r, (33 * e, 38 * e, 42 * e))


def internal_bend(r, e):
    return cls(r, (72 * e, 83 * e, 124 * e))


def internal_comp_bend(r, e, a, psi):
    """a: compressed share of the part in the plastic state (0..1);
    psi: ratio of the edge stresses (least/greatest compression).
    The limits jump at a = 0.5 and psi = -1: both are admissible there."""
    out = set()
    for s in (-1, 1):
        x, al = r * (1 + s * 1e-9), a
        for d in (-1e-8, 1e-8):
            al = a + d if abs(a - 0.5) < 1e-7 else a
            if al <= 0:
                l1 = l2 = INF
            elif al > 0.5:
                l1, l2 = 396 * e / (13 * al - 1), 456 * e / (13 * al - 1)
            else:
                l1, l2 = 36 * e / al, 41.5 * e / al
            p = psi
            if psi is not None and abs(psi + 1) < 1e-7:
                p = psi + 11 * d
            if p is None:
                l3 = INF
            elif p > -1:
                l3 = 42 * e / (0.67 + 0.33 * p)
            else:
                l3 = 62 * e * (1 - p) * math.sqrt(-p)
            out.add(1 if x <= l1 else 2 if x <= l2 else 3 if x <= l3 else 4)
    return out


def tube(r, e):
    return cls(r, (50 * e ** 2, 70 * e ** 2, 90 * e ** 2))


def worst(*sets):
    """All values max(a, b, ...) over members of the sets."""
    out = {0}
    for s in sets:
        out = {max(a, b) for a in out for b in s}
    return out
