"""ut_cnstitsel: exactly the right constituents, every array aligned with the names."""
from __future__ import annotations

from ..lib import *  # noqa
from ..objs import NAME_INDEX, SName

Bunch = m_util.Bunch
NC = len(m_sel.ut_constants.const.name)
const = m_sel.ut_constants.const

# (reference names, inferred names): concrete, because dictionaries and sets of symbolic names have no contract
INFER = {
    "none": None,
    "one": (["S2"], ["K2"]),
    "shared": (["S2", "K1", "S2"], ["K2", "P1", "T2"]),
    "chain": (["M2", "S2", "M2"], ["S2", "K2", "N2"]),
}


def lf(k):
    return T.app("lf", T.lift(k))


def c_freqs(s):
    def f(it, tref):
        s.eq("frequencies taken at the reference time", tref, T.var("tref"))
        return SArr((NC,), lambda idx: lf(idx[0]), "f")
    return f


def idx_of(name):
    return name.idx if isinstance(name, SName) else T.pconst(NAME_INDEX[name])


def run(s):
    for kind in ("auto", "list"):
        for inf in INFER:
            for vec in ((False,) if inf == "none" else (False, True)):
                unit(s, kind, inf, vec)
    rejected(s)


def mkinfer(inf, vec):
    if INFER[inf] is None:
        return None
    refs, infs = INFER[inf]
    n = len(infs) * (2 if vec else 1)
    return Bunch(reference_names=list(refs), inferred_names=list(infs),
                 amp_ratios=rarr("ratio", n), phase_offsets=rarr("offset", n), approximate=False)


def fuzz(v=None):
    from oracle import ref
    rng = np.random.default_rng(8)
    idx = {n: i for i, n in enumerate(ref.NAMES)}
    df = np.asarray(const.df)
    ok = [n for n in ref.NAMES if n != "Z0"]
    for trial in range(150):
        tref = 730000.0 + rng.uniform(-5000, 5000)
        F = ref.lin_freqs(tref)
        infer = None
        if trial % 3:
            nm = [ok[k] for k in rng.permutation(len(ok))[:8]]
            m = int(rng.integers(1, 5))
            refs = [nm[int(rng.integers(0, 3))] for _ in range(m)]
            vec = trial % 2
            infer = Bunch(reference_names=refs, inferred_names=nm[4:4 + m], amp_ratios=rng.random(m * (1 + vec)),
                          phase_offsets=rng.uniform(-180, 360, m * (1 + vec)), approximate=False)
        if trial % 2:
            minres, cn = 1 / (24 * rng.uniform(1, 400)), "auto"
            if trial % 5 == 0:
                minres = float(rng.choice(df[np.isfinite(df)]))
            chosen = [n for n, d in zip(ref.NAMES, df) if d >= minres]
        else:
            minres, cn = 0.1, [ok[k] for k in rng.permutation(len(ok))[: int(rng.integers(1, 12))]]
            if infer is not None and trial % 4 == 0:
                cn = cn + [x for x in infer.inferred_names[:1] if x not in cn]
            chosen = list(cn)
        RI = set() if infer is None else set(infer.reference_names) | set(infer.inferred_names)
        nr = [n for n in chosen if n not in RI]
        refs = [] if infer is None else list(dict.fromkeys(infer.reference_names))
        infd = [i for r in refs for i, q in zip(infer.inferred_names, infer.reference_names) if q == r]
        want = nr + refs + infd
        cs, co = m_sel.ut_cnstitsel(tref, minres, cn, infer)
        what = f"ut_cnstitsel({tref}, {minres}, {cn}, {None if infer is None else dict(infer)})"
        if list(co.name) != want or list(co.aux.lind) != [idx[n] for n in want]:
            return f"{what}: names {list(co.name)} indices {list(co.aux.lind)}, expected {want}"
        if len(co.aux.frq) != len(want) or np.abs(np.asarray(co.aux.frq) - F[[idx[n] for n in want]]).max(initial=0) > 1e-12:
            return f"{what}: frequencies {co.aux.frq}"
        if (co.nNR, co.nR, co.nI) != (len(nr), len(refs), len(infd)) or co.aux.reftime != tref:
            return f"{what}: counts {co.nNR, co.nR, co.nI} reference time {co.aux.reftime}"
        for r, name in zip(cs.R, refs):
            j = [k for k, q in enumerate(infer.reference_names) if q == name]
            a, p = np.asarray(infer.amp_ratios), np.asarray(infer.phase_offsets) * np.pi / 180
            Rp = a[j] * np.exp(1j * p[j])
            jm = [k + len(infd) for k in j] if len(a) > len(infd) else j
            Rm = a[jm] * np.exp(-1j * p[jm])
            if np.abs(r.I.Rp - Rp).max() > 1e-12 or np.abs(r.I.Rm - Rm).max() > 1e-12 or r.lind != idx[name]:
                return f"{what}: relation to {name}: {r.I.Rp}, {r.I.Rm}, expected {Rp}, {Rm}"
    return ("no failing input", 150)


def unit(s, kind, inf, vec):
    nm = f"ut_cnstitsel[{kind}, inference {inf}{' of a vector' if vec else ''}]"
    with s.unit(nm, replay=fuzz, seconds=60):
        def body():
            it = Interp(contracts={"utide.harmonics.linearized_freqs": c_freqs(s)})
            infer = mkinfer(inf, vec)
            tref, minres = T.var("tref"), T.var("minres")
            if kind == "auto":
                cn = "auto"
            else:
                n = nvar("n", 1)
                cn = SArr((n,), lambda idx: SName(T.app("nm", T.lift(idx[0]), sort="I", nonneg=True)), "O", owner="input")
            cs, co = it.call(m_sel.ut_cnstitsel, (tref, minres, cn, infer))
            s.used(it)
            post(s, kind, inf, vec, infer, cs, co)
            s.true("inputs and constant tables unmodified", not it.frame_violations)
            s.sanity()

        for facts, (kd, r) in s.paths(body):
            if kd == "exc":
                s.true(f"no exception ({r})", False)


class Chosen:
    """the indices below n at which a condition holds, in increasing order"""

    def __init__(self, n, cond):
        self.n = n
        self.mask = A.mask_formula(lambda idx: cond(idx[0]))
        self.count = T.lift(A.sel_count(self.mask, n))

    def sel(self, k):
        return T.lift(A.sel_index(self.mask, self.n, k))


def post(s, kind, inf, vec, infer, cs, co):
    refs, infs = INFER[inf] or ([], [])
    uref = list(dict.fromkeys(refs))
    by = [[j for j, r in enumerate(refs) if r == u] for u in uref]
    RI = sorted({NAME_INDEX[x] for x in list(refs) + list(infs)})
    tail = uref + [infs[j] for g in by for j in g]

    name, frq, lind = A.as_sarr(co.name), A.as_sarr(co.aux.frq), A.as_sarr(co.aux.lind)
    nNR = T.lift(co.nNR)
    # the non-reference constituents, as an ordered selection
    if kind == "auto":
        src_n, src = NC, lambda i: T.lift(i)
        cond = lambda i: T.cmp_("ge", A.table_gather(np.asarray(const.df), (T.lift(i),)), T.var("minres"))
    else:
        src_n, src = T.var("n", "I", True), lambda i: T.app("nm", T.lift(i), sort="I", nonneg=True)
        cond = lambda i: True
    keep = lambda i: T.and_(cond(i), *[T.not_(T.eq_(src(i), T.pconst(q))) for q in RI])
    m = Chosen(src_n, keep)
    s.eq("number of constituents that are neither reference nor inferred", nNR, m.count)
    s.eq("number of reference constituents", co.nR, len(uref))
    s.eq("number of inferred constituents", co.nI, len(infs))
    tot = m.count + len(tail)
    for what, arr in (("names", name), ("frequencies", frq), ("table indices", lind)):
        s.true(f"{what}: one dimension", arr.ndim == 1)
        s.eq(f"{what}: one per constituent", T.lift(arr.shape[0]), tot)
    k = gen(m.count)
    want = src(m.sel(k))
    s.eq("table index of each chosen constituent", lind.get(k), want)
    s.eq("name of each chosen constituent", idx_of(name.get(k)), want)
    s.eq("frequency of each chosen constituent", frq.get(k), lf(want))
    for j, nmj in enumerate(tail):
        p = m.count + j
        q = T.pconst(NAME_INDEX[nmj])
        s.eq(f"table index of {nmj}", lind.get(p), q)
        s.eq(f"name of {nmj}", idx_of(name.get(p)), q)
        s.eq(f"frequency of {nmj}", frq.get(p), lf(q))
    s.eq("reference time", co.aux.reftime, T.var("tref"))

    # the part used by the solver
    nr = cs.NR
    k = gen(m.count)
    for what, arr, w in (("lind", nr.lind, src(m.sel(k))), ("frq", nr.frq, lf(src(m.sel(k))))):
        arr = A.as_sarr(arr)
        s.eq(f"NR.{what} length", T.lift(arr.shape[0]), m.count)
        s.eq(f"NR.{what}", arr.get(k), w)
    s.eq("as many reference groups as distinct reference names", len(cs.R), len(uref))
    for r, u, g in zip(cs.R, uref, by):
        s.eq(f"{u}: table index", r.lind, NAME_INDEX[u])
        s.eq(f"{u}: frequency", r.frq, lf(NAME_INDEX[u]))
        s.true(f"{u}: name", r.name == u)
        s.eq(f"{u}: number of inferred", r.nI, len(g))
        s.true(f"{u}: inferred names", list(r.I.name) == [infs[j] for j in g])
        s.eq(f"{u}: inferred table indices", list(r.I.lind), [NAME_INDEX[infs[j]] for j in g])
        s.eq(f"{u}: inferred frequencies", list(r.I.frq), [lf(NAME_INDEX[infs[j]]) for j in g])
        Rp, Rm = A.as_sarr(r.I.Rp), A.as_sarr(r.I.Rm)
        s.eq(f"{u}: relations", (Rp.shape[0], Rm.shape[0]), (len(g), len(g)))
        for i, j in enumerate(g):
            rel = lambda q, sg: Cx(*T.cis(sg * deg(T.app("offset", T.lift(q))))) * Cx(T.app("ratio", T.lift(q)), T.ZERO)
            jm = j + len(infs) if vec else j
            s.eq(f"{u}: anticlockwise relation of {infs[j]}", Rp.get(i), rel(j, 1))
            s.eq(f"{u}: clockwise relation of {infs[j]}", Rm.get(i), rel(jm, -1))


def rejected(s):
    """an unknown name is rejected, wherever it stands"""
    for where in ("list", "reference", "inferred"):
        with s.unit(f"ut_cnstitsel[unknown name in {where}]"):
            def body():
                it = Interp(contracts={"utide.harmonics.linearized_freqs": c_freqs(s)})
                infer = None
                cn = ["M2", "XX9"] if where == "list" else ["M2", "S2"]
                if where != "list":
                    infer = mkinfer("one", False)
                    infer[where + ("_names")] = ["XX9"]
                it.call(m_sel.ut_cnstitsel, (T.var("tref"), T.var("minres"), cn, infer))
            for facts, (kd, r) in s.paths(body):
                s.true("rejected with an exception", kd == "exc")
