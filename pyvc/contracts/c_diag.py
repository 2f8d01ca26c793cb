"""Percent energy, signal-to-noise ratio, the diagnostics table, and the ordering of the constituents."""
from __future__ import annotations

from ..lib import *  # noqa
from ..objs import SName

Bunch = m_util.Bunch


def names(n):
    return SArr((n,), lambda idx: SName(T.app("nm", T.lift(idx[0]), sort="I", nonneg=True)), "O", owner="input")


def mkcoef(twodim, n, diag=True, full=False):
    c = Bunch()
    keys = ["Lsmaj", "Lsmin", "theta", "g"] if twodim else ["A", "g"]
    for k in keys:
        c[k] = rarr(k, n)
        c[k + "_ci"] = rarr(k + "_ci", n, nonneg=True)
    c["name"] = names(n)
    c["aux"] = Bunch(frq=rarr("frq", n), lind=rarr("lind", n, sort="I", nonneg=True))
    return c


def energy(twodim, k):
    if twodim:
        return T.app("Lsmaj", k) ** 2 + T.app("Lsmin", k) ** 2
    return T.app("A", k) ** 2


def noise(twodim, k):
    q = T.pconst(T.Fraction("1.96"))
    if twodim:
        return (T.app("Lsmaj_ci", k, nonneg=True) / q) ** 2 + (T.app("Lsmin_ci", k, nonneg=True) / q) ** 2
    return (T.app("A_ci", k, nonneg=True) / q) ** 2


def pe(twodim, n, k):
    return 100 * energy(twodim, k) / T.sum_(n, lambda i: energy(twodim, i))


def snr(twodim, k):
    return energy(twodim, k) / noise(twodim, k)


def rand_coef(rng, twodim, n):
    c = Bunch()
    for k in (["Lsmaj", "Lsmin", "theta", "g"] if twodim else ["A", "g"]):
        c[k] = rng.random(n) + 0.01
        c[k + "_ci"] = rng.random(n) + 0.01
    c["name"] = np.array(rng.permutation(m_const.constit_names)[:n].tolist(), dtype=object)
    c["aux"] = Bunch(frq=rng.random(n), lind=np.array([m_const.constit_index_dict[x] for x in c["name"]]))
    c["tag"] = None
    return c


def fuzz(v=None):
    rng = np.random.default_rng(2)
    for k in range(100):
        tw, n = bool(k % 2), int(rng.integers(1, 9))
        c = rand_coef(rng, tw, n)
        E = c["Lsmaj"] ** 2 + c["Lsmin"] ** 2 if tw else c["A"] ** 2
        N = ((c["Lsmaj_ci"] / 1.96) ** 2 + (c["Lsmin_ci"] / 1.96) ** 2) if tw else (c["A_ci"] / 1.96) ** 2
        P, S = m_diag._PE(c), m_diag._SNR(c)
        if not np.allclose(P, 100 * E / E.sum()) or not np.allclose(S, E / N):
            return f"PE/SNR of a {'vector' if tw else 'scalar'} solution with energies {E.tolist()}: {P.tolist()}, {S.tolist()}"
        d = m_diag.ut_diagn(c)["diagn"]
        o = [list(c["name"]).index(x) for x in d["name"]]
        if sorted(o) != list(range(n)) or (np.diff(d["PE"]) > 1e-9).any() or not np.allclose(d["PE"], P[o]) or not np.allclose(d["SNR"], S[o]):
            return f"diagnostics table of energies {E.tolist()}: PE {d['PE'].tolist()}, order {o}"
    return ("no failing input", 100)


def run_pe(s):
    for tw in (False, True):
        w = "vector" if tw else "scalar"
        with s.unit(f"_PE and _SNR[{w}]", replay=fuzz):
            def body():
                it = Interp()
                n = nvar("n", 1)
                c = mkcoef(tw, n)
                P = A.as_sarr(it.call(m_diag._PE, (c,)))
                S = A.as_sarr(it.call(m_diag._SNR, (c,)))
                s.used(it)
                s.true("one percent energy per constituent", P.ndim == 1 and A.same_dim(P.shape[0], n))
                s.true("one ratio per constituent", S.ndim == 1 and A.same_dim(S.shape[0], n))
                k = gen(n)
                s.eq("percent energy: 100 energy / total energy", P.get(k), pe(tw, n, k))
                s.eq("signal-to-noise ratio: energy / squared standard error", S.get(k), snr(tw, k))
                s.true("percent energy >= 0", T.cmp_("le", 0, P.get(k)))
                s.eq("percent energies add up to 100", A.reduce_sum(P), T.pconst(100))
                s.true("the solution is not modified", not it.frame_violations)
                s.sanity()

            for facts, (kind, r) in s.paths(body):
                if kind == "exc":
                    s.true(f"no exception ({r})", False)
        with s.unit(f"ut_diagn[{w}]", replay=fuzz):
            def body2():
                it = Interp()
                n = nvar("n", 2)
                c = mkcoef(tw, n)
                d = it.call(m_diag.ut_diagn, (c,))["diagn"]
                s.used(it)
                k = gen(T.lift(n) - 1)
                p, q = position(d["name"], k), position(d["name"], k + 1)
                for nm, f in (("PE", lambda i: pe(tw, n, i)), ("SNR", lambda i: snr(tw, i))):
                    a = A.as_sarr(d[nm])
                    s.true(f"{nm}: one entry per constituent", A.same_dim(a.shape[0], n))
                    s.eq(f"{nm} belongs to the named constituent", a.get(k), f(p))
                P = A.as_sarr(d["PE"])
                s.true("non-increasing percent energy", T.cmp_("le", P.get(k + 1), P.get(k)))
                s.true("no constituent twice", T.not_(T.eq_(p, q)))
                s.true("inputs unmodified", not it.frame_violations)
                s.sanity()

            for facts, (kind, r) in s.paths(body2):
                if kind == "exc":
                    s.true(f"no exception ({r})", False)


def position(namearr, k):
    """index into the original constituents of entry k of a name array made of symbolic names nm[.]"""
    x = A.as_sarr(namearr).get(k)
    if not isinstance(x, SName):
        raise Unsupported(f"entry of the name array is {x!r}")
    at = T.the_atom(x.idx) if len(x.idx.t) == 1 else None
    if at is None or at.kind != "app" or at.args[0] != "nm":
        raise Unsupported(f"name {x!r}")
    return at.args[1]


def fuzz_order(v=None):
    rng = np.random.default_rng(6)
    for k in range(200):
        tw, n = bool(k % 2), int(rng.integers(1, 9))
        c = rand_coef(rng, tw, n)
        if k % 3:
            c["PE"] = m_diag._PE(c)
        c["SNR"] = m_diag._SNR(c)
        order = ["PE", "SNR", "frequency", list(rng.permutation(c["name"]))][int(rng.integers(4))]
        old = {a: np.array(b, copy=True) for a, b in c.items() if isinstance(b, np.ndarray)}
        oldf, oldl = c["aux"]["frq"].copy(), c["aux"]["lind"].copy()
        r = m_solve._reorder(c, Bunch(ordercnstit=order))
        o = [list(old["name"]).index(x) for x in r["name"]]
        bad = sorted(o) != list(range(n))
        for a, b in old.items():
            bad = bad or not np.array_equal(r[a], b[o])
        bad = bad or not np.array_equal(r["aux"]["frq"], oldf[o]) or not np.array_equal(r["aux"]["lind"], oldl[o])
        if isinstance(order, list):
            bad = bad or list(r["name"]) != list(order)
        else:
            x = {"PE": lambda: -r["PE"], "SNR": lambda: -r["SNR"], "frequency": lambda: r["aux"]["frq"]}[order]()
            bad = bad or (np.diff(x) < -1e-12).any()
        if bad:
            return f"_reorder of a {'vector' if tw else 'scalar'} solution with {n} constituents by {order}: order {o}"
    return ("no failing input", 200)


def run_order(s):
    for tw in (False, True):
        w = "vector" if tw else "scalar"
        for order in ("PE", "PE, not yet computed", "SNR", "frequency", "names"):
            with s.unit(f"_reorder[{w},{order}]", replay=fuzz_order):
                def body():
                    it = Interp()
                    n = nvar("n", 2)
                    c = mkcoef(tw, n)
                    keys = ["name", "g", "g_ci"] + (["Lsmaj", "Lsmin", "theta", "Lsmaj_ci", "Lsmin_ci", "theta_ci"] if tw else ["A", "A_ci"])
                    if order != "PE, not yet computed":
                        c["PE"], c["SNR"] = rarr("PE", n), rarr("SNR", n)
                        keys += ["PE", "SNR"]
                    old = {x: c[x].snap() for x in keys}
                    old["frq"], old["lind"] = c["aux"]["frq"].snap(), c["aux"]["lind"].snap()
                    if order == "names":
                        # a requested order: any permutation of the solution's names
                        req = SArr((n,), lambda idx: SName(T.app("nm", T.app("perm", T.lift(idx[0]), sort="I", nonneg=True), sort="I", nonneg=True)), "O")
                        from ..slist import SList
                        o = SList(req)
                        # what "a permutation of the names" means for the comparison of sorted lists
                        ks = sorted((A.arr_key(req), A.arr_key(c["name"])), key=repr)
                        ENGINE.push(T.bapp("same_elements", *ks))
                    else:
                        o = order.split(",")[0]
                    r = it.call(m_solve._reorder, (c, Bunch(ordercnstit=o)))
                    s.used(it)
                    k = gen(T.lift(n) - 1)
                    if order == "names":
                        # names in the order requested; positions found through list.index
                        got = A.as_sarr(r["name"]).get(k)
                        idx = A.as_sarr(r["aux"]["lind"]).get(k)
                        p = T.the_atom(idx).args[1]
                        with using([index_axiom(p, k)]):
                            s.true("names in the order requested", got == A.as_sarr(req).get(k))
                    else:
                        p = position(r["name"], k)
                        q = position(r["name"], k + 1)
                        s.true("no constituent twice", T.not_(T.eq_(p, q)))
                        key = {"PE": "PE", "SNR": "SNR", "frequency": "frq"}[order.split(",")[0]]
                        a = A.as_sarr(r["aux"]["frq"] if key == "frq" else r[key])
                        if key == "frq":
                            s.true("non-decreasing frequency", T.cmp_("le", a.get(k), a.get(k + 1)))
                        else:
                            s.true(f"non-increasing {key}", T.cmp_("le", a.get(k + 1), a.get(k)))
                    for x in keys + ["frq", "lind"]:
                        a = A.as_sarr(r["aux"][x] if x in ("frq", "lind") else r[x])
                        s.true(f"{x}: one entry per constituent", A.same_dim(a.shape[0], n))
                        s.eq(f"{x} moves with its constituent", a.get(k), old[x]((p,)))
                    if "not yet" in order:
                        s.eq("PE moves with its constituent", A.as_sarr(r["PE"]).get(k), pe(tw, n, p))
                    s.true("inputs unmodified in place", not it.frame_violations)
                    s.sanity()

                for facts, (kind, r) in s.paths(body):
                    if kind == "exc":
                        s.true(f"no exception ({r})", False)
    run_rejected(s)
    s.assumptions.append("numpy.argsort returns a permutation that sorts its argument; list.index returns a position of an equal element")


def fuzz_rejected(val=None):
    import itertools
    names = ["M2", "S2", "K1"]
    n = 0
    for m in range(0, 5):
        for req in itertools.product(names + ["O1", "m2", ""], repeat=m):
            c = Bunch(name=np.array(names, dtype=object), A=np.arange(3.0), g=np.arange(3.0), PE=np.arange(3.0), A_ci=np.ones(3), g_ci=np.ones(3))
            c["aux"] = Bunch(frq=np.arange(3.0), lind=np.arange(3))
            n += 1
            for q in (list(req), tuple(req), np.array(req, dtype=object)):
                try:
                    r = m_solve._reorder(Bunch(c, aux=Bunch(c["aux"])), Bunch(ordercnstit=q))
                except Exception:
                    continue
                if sorted(req) != sorted(names):
                    return f"_reorder of {names} accepts the order {q!r}: {list(r['name'])}"
    return ("no failing input", n)


def run_rejected(s):
    """an order list that does not name each constituent of the solution once"""
    for tw in (False, True):
        with s.unit(f"_reorder[{'vector' if tw else 'scalar'}, any list with other names, or other numbers of them, is rejected]", replay=fuzz_rejected):
            def body():
                from ..slist import SList
                n, k = nvar("n", 1), nvar("k", 0)
                c = mkcoef(tw, n)
                c["PE"], c["SNR"] = rarr("PE", n), rarr("SNR", n)
                req = SArr((k,), lambda idx: SName(T.app("requested", T.lift(idx[0]), sort="I", nonneg=True)), "O")
                ks = sorted((A.arr_key(req), A.arr_key(c["name"])), key=repr)
                ENGINE.push(T.not_(T.bapp("same_elements", *ks)))
                Interp().call(m_solve._reorder, (c, Bunch(ordercnstit=SList(req))))
            for facts, (kind, r) in s.paths(body):
                s.true("ValueError", kind == "exc" and isinstance(r.exc, ValueError))
    for bad, what in ((["M2", "K1"], "a name left out"), (["M2", "K1", "S2", "M2"], "a name twice"), (["M2", "K1", "O1"], "an unknown name"),
                      (["M2", "M2", "K1"], "a name twice and one left out")):
        with s.unit(f"_reorder[{what} is rejected]", replay=fuzz_rejected):
            def body2():
                c = mkcoef(False, 3)
                c["name"] = np.array(["S2", "M2", "K1"], dtype=object)
                Interp().call(m_solve._reorder, (c, Bunch(ordercnstit=list(bad))))
            for facts, (kind, r) in s.paths(body2):
                s.true("exception", kind == "exc")


def index_axiom(p, k):
    """list.index: the element at the returned position equals the requested one"""
    return T.eq_(T.app("nm", p, sort="I", nonneg=True), T.app("nm", T.app("perm", T.lift(k), sort="I", nonneg=True), sort="I", nonneg=True))


def run(s):
    run_pe(s)
    s.assumptions.append("numpy.argsort returns a permutation that sorts its argument; the total energy is positive and every confidence interval non-zero")
