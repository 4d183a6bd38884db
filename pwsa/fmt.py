"""Coverage of the recorded document format by the current source."""

import json


def admits(con, v):
    if con is None:
        return True
    k = con[0]
    if k == "=":
        return type(con[1]) is type(v) and con[1] == v
    if k == "in":
        return v in con[1:]
    if k == "not":
        return v not in con[1:]
    if k == "rng":
        return type(v) is int and con[1] <= v <= con[2] and v not in con[3]
    return True


class Lost(str):
    """Message for data that is no longer accepted at all."""


OTHER = "\x00any other value"


def reps(kind, cons):
    """Representative values of one field: what any constraint mentions, plus others."""
    out = []
    ints = kind[:1] in ("u", "i") and kind[1:2].isdigit()
    for c in cons:
        if c is None:
            continue
        if c[0] == "=":
            out.append(c[1])
        elif c[0] in ("in", "not"):
            out += c[1:]
        elif c[0] == "rng":
            out += [c[1], c[2]] + list(c[3])
            for v in (c[1] - 1, c[2] + 1):
                out.append(v)
    if ints:
        n = 8 * int(kind[1])
        lo, hi = (0, (1 << n) - 1) if kind[0] == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        out = [v for v in out if type(v) is int and lo <= v <= hi]
        for v in (lo, hi, hi // 2 + 7 if hi > 300 else hi - 3):
            out.append(v)
    else:
        out.append(OTHER)
    r = []
    for v in out:
        if not any(type(x) is type(v) and x == v for x in r):
            r.append(v)
    return r


def index(shape):
    """Entries keyed by path; several entries may share one (generic lists)."""
    d = {}
    for p, k, r, c in shape:
        d.setdefault(p, []).append((k, r, c))
    return d


def kind_ok(base, cur, bc, cc):
    if base == cur:
        return True
    # a field pinned to one value may be stored as that constant and vice versa
    if bc and cc and bc[0] == "=" and cc[0] == "=" and type(bc[1]) is type(cc[1]) and bc[1] == cc[1]:
        return True
    # which part of a list of unknown content is kept is not a format question
    return False


def order_ok(base, cur):
    """Fields common to both must be in the same order on the wire."""
    pairs = []
    for p, es in base.items():
        for (k, r, c), (k2, r2, c2) in zip(es, cur[p]):
            if r >= 0 and r2 >= 0:
                pairs.append((p, r, r2))
    return pairs


def frame_of(path):
    return path.rsplit("*", 1)[0] if "*" in path else path.split("<each>")[0] + ("<each>" if "<each>" in path else "")


def skeleton(base, cur):
    """None when every entry of base is found in cur with the same source; else why not."""
    for p, es in base.items():
        if p not in cur:
            return "field %r is missing" % p
        if len(cur[p]) < len(es):
            return "field %r occurs fewer times" % p
        for (k, r, c), (k2, r2, c2) in zip(es, cur[p]):
            if not kind_ok(k, k2, c, c2):
                return "field %r holds %s instead of %s" % (p, describe(k2, c2), describe(k, c))
    groups = {}
    for p, r, r2 in order_ok(base, cur):
        groups.setdefault(frame_of(p), []).append((r, r2, p))
    for g in groups.values():
        g.sort()
        for (a, a2, p), (b, b2, q) in zip(g, g[1:]):
            if a < b and a2 >= b2 or a == b and a2 != b2:
                return "fields %r and %r are taken from each other's place in the data" % (p, q)
    return None


def describe(k, c):
    return k + ("" if c is None else " " + json.dumps(c)[:80])


def covered(base, curs, limit=4000):
    """Findings: base entries (shape lists) not covered by any of curs."""
    bi = index(base)
    ci = [index(c) for c in curs]
    why = []
    match = []
    for c in ci:
        w = skeleton(bi, c)
        if w is None:
            match.append(c)
        else:
            why.append(w)
    if not match:
        # does any document still arise under the same discriminators?
        alive = False
        for c in ci:
            if all(admits(y[2], v) for p in bi if p in c for x, y in zip(bi[p], c[p]) for v in (x[2][1:2] if x[2] and x[2][0] == "=" else [])):
                alive = True
        if not alive:
            return Lost("data with %s is no longer accepted" % (", ".join("%s=%s" % (p, es[0][2][1]) for p, es in bi.items() if es[0][2] and es[0][2][0] == "=") or "any content")[:300])
        # the most specific reason: from the shape that agrees on most fields
        best = None
        for c, w in zip(ci, why):
            n = sum(1 for p in bi if p in c and all(kind_ok(x[0], y[0], x[2], y[2]) for x, y in zip(bi[p], c[p])) and all(admits(y[2], v) for x, y in zip(bi[p], c[p]) for v in (x[2][1:2] if x[2] and x[2][0] in ("=", "in") else [])))
            if best is None or n > best[0]:
                best = (n, w)
        return best[1] if best else "no document of this structure is produced any more"
    # region of the base shape must be covered by the union of the matching ones
    fields = []
    for p, es in bi.items():
        for i, (k, r, c) in enumerate(es):
            cons = [c] + [m[p][i][2] for m in match]
            if all(x is None for x in cons):
                continue
            vals = [v for v in reps(k if not c or c[0] != "=" else "const", cons) if admits(c, v)]
            fields.append((p, i, vals))

    def ok(assign):
        for m in match:
            if all(admits(m[p][i][2], v) for (p, i), v in assign.items()):
                return True
        return False

    if not fields:
        return None
    total = 1
    for f in fields:
        total *= len(f[2])
    if total <= limit:
        combos = [{}]
        for p, i, vals in fields:
            combos = [dict(a, **{}) | {(p, i): v} for a in combos for v in vals]
    else:
        first = {(p, i): vals[0] for p, i, vals in fields if vals}
        start = None
        for m in match:
            a = {}
            for p, i, vals in fields:
                g = [v for v in vals if admits(m[p][i][2], v)]
                if not g:
                    break
                a[(p, i)] = g[0]
            else:
                start = a
                break
        if start is None:
            start = first
        combos = [dict(start)]
        for p, i, vals in fields:
            for v in vals:
                combos.append(dict(start) | {(p, i): v})
    for a in combos:
        if not ok(a):
            bad = {p: (v if v != OTHER else "a new value") for (p, i), v in a.items()}
            return Lost("no longer accepted or no longer decoded the same way when %s" % ", ".join("%s=%r" % x for x in list(bad.items())[:6]))
    return None


def check(spec, entries):
    """spec, entries: lists of [group, shape, ctx]; yields (group, ctx, message, obligations)."""
    cur = {}
    for g, s, x in entries:
        cur.setdefault(g, []).append((s, x))
    probs = []
    n = 0
    done = set()
    for g, s, x in spec:
        cands = cur.get(g)
        n += 1
        if not cands:
            probs.append((g, x, "nothing is decoded here any more", True))
            continue
        terms = [(t, c) for t, c in x.items()] or [(None, None)]
        for t, c in terms:
            vals = [OTHER] if t is None else [v for v in reps("str", [c]) if admits(c, v)]
            for v in vals:
                k = (g, t, json.dumps(v), json.dumps(s))
                if k in done:
                    continue
                done.add(k)
                if t is None:
                    cs = cands
                else:
                    cs = [(s2, x2) for s2, x2 in cands if t not in x2 or admits(x2[t], v)]
                n += len(s)
                w = covered(s, uniq([s2 for s2, _ in cs]))
                if w:
                    probs.append((g, {t: v} if t else {}, w, isinstance(w, Lost)))
    return probs, n


def uniq(ls):
    seen = {}
    for s in ls:
        seen.setdefault(json.dumps(s), s)
    return list(seen.values())
