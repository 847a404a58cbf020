"""Random-interpretation hash of terms: gates and polynomials are evaluated over a prime field, so two terms that differ
only in how gates/polynomials were normalised, in the numbering of bound variables or in the order of a loop's
accumulators hash alike (polynomial identity testing; colour refinement for binders)."""
import hashlib
from term import *
P = (1 << 61) - 1
def mix(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big") % P
VARC = mix("var")
K0 = mix("bound")
TR = {"true": 1, "false": 0}
SYMM = {"max", "min", "eq", "emul", "xor", "bitand", "bitor"}
BIND1 = {"any", "first", "lastk", "sum", "gen", "coll", "red"}
NOBV = frozenset()
_fb = {}
def _fbx(x):
    if isinstance(x, T): return fbv(x)
    if isinstance(x, tuple):
        r = NOBV
        for y in x:
            f = _fbx(y)
            if f: r = r | f
        return r
    return NOBV
def fbv(t):
    """bound variables free in t"""
    if t.hgt == 0: return NOBV
    r = _fb.get(t)
    if r is not None: return r
    op, a = t.op, t.args
    if op in BV: r = frozenset((t,))
    elif op in BIND1: r = _fbx(a[:-2]) | (fbv(a[-1]) - {T_("bv", a[-2])})
    elif op == "fold":
        r = fbv(a[0]) | _fbx(a[4]) | (_fbx(a[3]) - set(foldvars(a)))
    elif op == "lamarr": r = fbv(a[1]) | (fbv(a[3]) - {T_("bv", a[2] + j) for j in range(a[0])})
    elif op == "cmpfn": r = fbv(a[1]) - {T_("ba", a[0]), T_("ba", a[0] + 1)}
    else: r = _fbx(a)
    _fb[t] = r
    return r
def foldvars(a): return [T_("bv", a[1])] + [T_(k, a[1] + 1 + j) for j, k in enumerate(a[2])]
def pint(c): return c.numerator % P * (pow(c.denominator, -1, P) if c.denominator != 1 else 1) % P
_memo = {False: {}, True: {}}
_epoch = {}
def phash(t, env=None, blind=False):
    """env: variable -> field value.  blind: names of other fresh variables do not matter"""
    memo = _memo[blind]
    def H(t, env):
        if env:
            v = env.get(t)
            if v is not None: return v
            f = fbv(t)
            if f or t.syms:
                rel = [(k, env[k]) for k in f if k in env]
                if t.syms: rel += [(k, env[k]) for k in t.syms if k in env]
                if not rel: key = t; env = None
                elif len(rel) == 1: key = (t, rel[0])
                else: key = (t, frozenset(rel))
            else: key = t; env = None
        else: key = t
        r = memo.get(key)
        if r is None:
            r = memo[key] = h1(t, env)
        return r
    def A(x, env):
        if isinstance(x, T): return H(x, env)
        if isinstance(x, tuple): return tuple([A(y, env) for y in x])
        return x
    def hcmp(rel, q, k, env):
        # p = q - k  rel 0, oriented by the semantic hash of its monomials
        ms = []
        for m, c in monos(q).items():
            if not m: k = k - c; continue
            v = 1
            for a, e in m: v = v * pow(H(a, env), e, P) % P
            ms.append((v, c))
        ms.sort()
        if not ms: return mix("cmp", rel, str(k))
        lc = ms[0][1]
        s = 0
        for v, c in ms: s = (s + pint(c / lc) * v) % P
        k = k / lc
        isint = is_int(q) and abs(lc) == 1
        if lc > 0: return mix("cmp", rel, s, str(k))
        # q' >= k
        if isint: return (1 - mix("cmp", "<=", s, str(math.ceil(k) - 1))) % P
        return (1 - mix("cmp", "<" if rel == "<=" else "<=", s, str(k))) % P
    def bind(vs, bodies, env):
        """value of the bodies with each variable at a value determined by its role in them"""
        e = dict(env) if env else {}
        for j, v in enumerate(vs): e[v] = mix(K0, j)
        c = mix("bv", *[H(b, e) for b in bodies])
        for j, v in enumerate(vs): e[v] = mix(c, j)
        return [H(b, e) for b in bodies]
    def hfold(a, env):
        n, h, kinds, bodies, inits, i = a
        vs = foldvars(a)
        k, accs = vs[0], vs[1:]
        ini = [H(x, env) for x in inits]
        m = len(accs)
        if m == 1:
            e = dict(env) if env else {}
            e[k] = mix(K0, "k"); e[accs[0]] = mix(K0, "acc", ini[0])
            c = H(bodies[0], e)
            e[k] = mix(c, "k"); e[accs[0]] = mix(c, "acc", ini[0])
            return mix("fold", H(n, env), H(bodies[0], e), ini[0])
        col = [mix("col0", x) for x in ini]
        kc = 12345
        rnd = 0
        while True:
            e = dict(env) if env else {}
            e[k] = kc
            for v, c in zip(accs, col): e[v] = c
            col = [mix("col", H(b, e), x) for b, x in zip(bodies, ini)]
            rnd += 1
            if rnd >= 3 and (len(set(col)) == m or rnd >= 2 * m): break
            if rnd == 1: kc = mix("k", *sorted(col))
        return mix("fold", H(n, env), m, tuple(sorted(col)), col[i])
    def h1(t, env):
        op, a = t.op, t.args
        if op == "num": return pint(a[0])
        if op in TR: return TR[op]
        if op == "poly":
            s = 0
            for m, c in a[0]:
                v = pint(c)
                for x, e in m: v = v * pow(H(x, env), e, P) % P
                s = (s + v) % P
            return s
        if op == "ite":
            f = hcmp(*a[0].args, env) if a[0].op == "cmp" else H(a[0], env)
            return (f * H(a[1], env) + (1 - f) * H(a[2], env)) % P
        if op in ("grp", "gv", "prd"): return H(a[0], env)
        if op == "sym":
            if a[0][0] == "%" and blind: return VARC
            return mix("sym", a[0])
        if op == "st":      # linear in the array and in the stored value: gates may sit outside or inside a store
            i = A(a[1], env)
            return (mix("st", i) * H(a[0], env) + mix("stv", i) * H(a[2], env) + mix("std", i)) % P
        if op in BIND1: return mix(op, A(a[:-2], env), *bind([T_("bv", a[-2])], [a[-1]], env))
        if op == "fold": return hfold(a, env)
        if op == "lamarr": return mix(op, a[0], H(a[1], env), *bind([T_("bv", a[2] + j) for j in range(a[0])], [a[3]], env))
        if op == "cmpfn": return mix(op, *bind([T_("ba", a[0]), T_("ba", a[0] + 1)], [a[1]], env))
        if op in SYMM: return mix(op, *sorted(H(x, env) for x in a))
        if op == "cmp": return hcmp(*a, env)
        if op == "rec":
            return mix(op, H(a[0], env), *[(k, H(v, env)) for k, v in a[1]])
        return mix(op, *[A(x, env) for x in a])
    return H(t, env or None)
