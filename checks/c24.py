"""C24 reuse: the result of a run on a used object does not depend on what the object held before"""
import random
import re
from checks import imgops
from checks import c06, c09, c10, c13, c15, c16, c17, c18
from checks.imgops import *
from checks.common import Ob
from checks.data import Grow, read_ptr
from checks.ops import val
from sa import check as sc
from sa.interp import Interp, sample, Undefined
from sa.terms import Atom, Arr, Node, Poly, BDD, b_vars

TECHNIQUE = "history-independence (non-interference) by value dataflow: no symbol or array cell of the object's earlier state reaches a result"
RULE = ("a filter, tracer, container or work buffer is evaluated from an arbitrary earlier state (every field that survives a use is a symbol); in the closed form "
        "of every result (geometry, pixel, element, gate of a normal return, argument handed to the next stage) no symbol of the earlier state occurs after "
        "normalisation, or the closed form equals one in which none occurs")
NOTE = ("the two runs on a reused and on a new object have closed forms over the same inputs; a result whose closed form has no atom of the earlier state "
        "is the same function of the inputs after every history")
LEVEL = "other"
ASSUMPTIONS = ["fewer than 2^31 elements per image; row*stride+offset does not wrap", "the object is in a state its own operations leave it in (class invariants)"]
DRIVERS = ["block", "thresh", "tracing", "packed", "data", "blur"]


def names(v, out=None, seen=None):
    """free symbols and roots of initial array contents in a term"""
    if out is None:
        out, seen = set(), set()
    if isinstance(v, tuple):
        for x in v:
            names(x, out, seen)
        return out
    if not isinstance(v, (Poly, Atom, Arr, Node, BDD)):
        return out
    k = (type(v).__name__, id(v))
    if k in seen:
        return out
    seen.add(k)
    if isinstance(v, Poly):
        for m, c in v.items:
            for a in m:
                names(a, out, seen)
    elif isinstance(v, Atom):
        if v.kind == "sym":
            out.add(v.args[0])
        else:
            names(v.args, out, seen)
    elif isinstance(v, Arr):
        if v.kind in ("init", "undef"):
            out.add(v.root)
        names(v.args, out, seen)
    elif isinstance(v, Node):
        names(v.args, out, seen)
    else:
        for a in b_vars(v):
            names(a, out, seen)
    return out


def holds(it, ctx, pre):
    it.memo.clear()
    it.mat.clear()
    try:
        return all(it.poly(f) >= 0 for f in ctx.facts()) and all(bool(it.atom(a)) == pol for a, pol in ctx.lits.items()) and (pre is None or bool(pre(it)))
    except Undefined:
        return False


class Other(Interp):
    """the valuation of `it` with other contents in the arrays of the earlier state"""

    def __init__(self, it, old, rng):
        Interp.__init__(self, rng, it.roots, it.mode)
        self.seed, self.env = it.seed, dict(it.env)
        self.salt = rng.getrandbits(30)
        self.old = old

    def hash(self, *a):
        return Interp.hash(self, *(a + (self.salt,) if a[0] == "c" and self.old(a[1]) else a))


def depends(got, ctx, syms, roots, old, rng, n, pre):
    """two valuations that agree outside the earlier state and give different results"""
    mine = [a for a in syms if old(a.args[0])]
    for k in range(n):
        sp = sc.SPANS[k % len(sc.SPANS)]
        two = [sample(ctx, syms, rng, roots, spans={a.args[0]: sp for a in syms}, mode=(k // 5) % 4, tries=12) for _ in (0, 1)]
        if None in two or not holds(two[0], ctx, pre):
            continue
        it = two[0]
        try:
            a = it.poly(got)
        except Undefined:
            continue
        o = Other(it, old, rng)
        o.content = {c: v for c, v in it.content.items() if not old(c[0])}
        if not holds(o, ctx, pre):
            o.old = lambda nm: False
            o.content = dict(it.content)
            if not holds(o, ctx, pre):
                continue
        for x in rng.sample(mine, len(mine)):
            keep = o.env[x]
            for v in (two[1].env[x], rng.choice(list(it.env.values())), keep + 1, keep - 1):
                if x.isint and v != int(v):
                    continue
                o.env[x] = v
                if holds(o, ctx, pre):
                    break
            else:
                o.env[x] = keep
        if not holds(o, ctx, pre):
            continue
        try:
            b = o.poly(got)
        except Undefined:
            continue
        if a != b:
            return sc.describe(it, syms), {x.args[0]: str(o.env[x]) for x in mine}, a, b
    return None


def watch(old, fn, *args):
    """runs the obligation `fn` and judges the results it names instead of their values"""
    rx = re.compile(old)
    isold = lambda nm: bool(rx.match(nm if isinstance(nm, str) else str(nm)))
    out = []
    orig = Run.decide

    def judge(r, got, spec, what, loc=None, n=400, pre=None, ctx=None, key=None, extra=None, seed=None, same=None):
        d = {"status": "open", "key": key, "loc": loc, "detail": ""}
        if isinstance(got, BDD):
            got = b_poly(got)
        if isinstance(spec, BDD):
            spec = b_poly(spec)
        if not isinstance(got, Poly):
            d["detail"] = what + ": value not available"
            out.append(d)
            return d
        hit = sorted(x for x in names(got) if isold(x))
        if not hit:
            d.update(status="proved", leaves=1, functions=len(r.ev.functions))
            out.append(d)
            return d
        if any(isold(x) for x in names(P(spec))):
            return d           # the earlier contents are part of the definition
        c = ctx or r.ctx
        v = orig(r, got, spec, what, loc, 60, pre, ctx, key, extra, seed, same)
        if v["status"] == "proved":
            out.append(v)
            return v
        p = pre or r.pre
        w = depends(got, c, r.syms, r.ev.roots, isold, random.Random(int(os.environ.get("VERIF_SEED", "1"))), 120, p)
        if w:
            d.update(status="refuted", detail="%s: depends on the earlier state (%s): %s for %s, but %s when the earlier state is %s"
                     % (what, ", ".join(hit[:6]), w[2], w[0], w[3], w[1]), witness=w[0], closed_form=str(got)[:1500])
        else:
            d["detail"] = "%s: %s occur in the closed form; no pair of histories separates it" % (what, hit[:6])
        out.append(d)
        return d
    Run.decide = judge
    try:
        fn(*args)
    finally:
        Run.decide = orig
    return out


def o_otsu(w, o2, full, down):
    """ComputeOtsu used before"""
    s = Setup(w)
    h = Grow(s, "h", "U32")
    n = h.size
    s.ctx.add_ge(n - 1)
    q = T.fresh("q")
    tot = T.ssum(q, n, h.init(P(q)))
    f = {"useOtsu2": ONE if o2 else ZERO, "down": ONE if down else ZERO, "tuning": val(s, "tuning", "F64") if full else ZERO,
         "scale": val(s, "scale", "F64") if full else ONE}
    for x in ("threshold", "variance"):
        f[x] = val(s, "old." + x, "F64")
    o = s.obj("co", "ComputeOtsu", f)
    key = "otsu%s/%s/%s" % ("2" if o2 else "", "tuned" if full else "plain", "down" if down else "up")
    r = Run(s, "otsu_raw", [o, h.ptr, tot])
    out = [r.returns(key + "/returns")]
    for x in ("threshold", "variance"):
        got = r.st.cells.get(("co", s.offset("ComputeOtsu", x)))
        out.append(r.decide(got, T.sym("any"), x, key=key + "/" + x))
    return out


def pick(obs, rx):
    return [o for o in obs if re.match(rx, o.key)]


TABLE = [
    (c06, [(r"blur_", r"(t|o)\.(?!offset$|stride$)")]),
    (c09, [(r"local/", r"(t|u|o)\.(?!offset$|stride$)"), (r"[^/]*/[^/]*/process", r"(SW|SH|oldbw|oldbh)$|f\."), (r"[^/]*/[^/]*/tiles", r"f\.stats"),
           (r"[^/]*/[^/]*/statistic", r"f\.stats"), (r"[^/]*/[^/]*/threshold", r"f\.hist")]),
    (c10, [(r"filter/", r"o\.(?!offset$|stride$)|f\.")]),
    (c13, [(r"[gi]_(reshape3?|bands|copy|assign)_.*/owned|[gi]_(reshape3?|bands)_.*/.*owned", r"a\.(?!offset$|stride$)")]),
    (c15, [(r"ga_(grow|set|setTo|assign)_", r"a\.")]),
    (c16, [(r"ps_(clear|push|start|remove)_", r"(ps\.|z$|b$|o$|n$|nb$)")]),
    (c17, [(r"process/|set_inputs|step1|ctor", r"(bw|bh|blen|nsets|total|ncont|ox|oy|oin|oout|maxc|cur|tmax|lc)\b|old\.|border\.data|tracer|cur\.|l\.data"),
           (r"trace/", r"old\.")]),
]


def obligations(ws, tier):
    obs = []

    def add(prefix, old, os_):
        for o in os_:
            obs.append(Ob(prefix + "/" + o.key, watch, old, o.fn, *o.args))
    for m, table in TABLE:
        src = m.obligations(ws, tier)
        for rx, old in table:
            add(m.__name__.split(".")[-1], old, pick(src, rx))
    for o2 in (False, True):
        for full in (False, True):
            for down in (True, False):
                obs.append(Ob("otsu/%s%s%s" % (o2, full, down), watch, r"old\.", o_otsu, ws["thresh"], o2, full, down))
    return obs


