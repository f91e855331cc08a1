"""P25: what is computed for a source depends on that source alone."""
import copy

import numpy as np

import amzworld as W
from engine import prop, require

STAGES = ["redshiftSolver", "linemeas_catalog_load", "lineMeasSolver", "reliabilitySolver", "subClassifSolver"]
CONSEQUENT = "STAGE_NOT_RUN_BECAUSE_OF_PREVIOUS_FAILURE"
SHORT = ["classification.Type", "classification.galaxyProba", "classification.starProba", "ContextWarningFlags", "InitWarningFlags",
         "error.init.code", "error.galaxy.redshiftSolver.code", "error.star.redshiftSolver.message", "galaxy.Redshift", "galaxy.Redshift.0",
         "galaxy.Redshift.1", "star.RedshiftProba", "galaxy.ContinuumName", "galaxy.SubType", "classification.WarningFlags",
         "galaxy.lineModelSolveWarningFlags", "star.templateFittingSolveWarningFlags", "galaxy.Halpha.LinemeasLineFlux"]


def describe(g, P, sources):
    for m in P["spectrumModels"]:
        s = P[m]
        if "redshiftSolver" not in s:
            g.note(m, "measured only")
            g.label("measured only")
            continue
        meth = s["redshiftSolver"]["method"]
        o = s["redshiftSolver"][meth]
        g.note(m, meth, s["redshiftSampling"], o.get("spectrum", {}).get("component", ""), {k: v for k, v in o.get("lineModel", o).items() if not isinstance(v, dict)} if meth != "lineModelSolve"
               else {k: o["lineModel"][k] for k in ("continuumComponent", "lineRatioType", "fittingMethod", "pdfCombination", "skipSecondPass",
                                                    "velocityFit")}, "linemeas" if "lineMeasSolver" in s["stages"] else "")
        g.label(meth)
    for x in W.options(P):
        g.label(x)
    g.note(W.options(P), "sources", [f"{s['name']}:{s['kind']}:{len(s['w'])}" for s in sources])


def reads(out, ids):
    """what the attribute interface gives, as a table"""
    a = out.get_attributes(SHORT, ids)
    a.pop("ProcessingID", None)
    return W.plain(a)


def ok(r, what):
    require(r[0] == "ok", "run-" + r[0], lambda: f"{what}: {r[1]}")
    return r[1]


def run_sequence(flow, param, seq, sources):
    """runs the sources in this order; snapshots taken after each run and again at the end"""
    ids = flow.calibration_library.get_lines_ids(SHORT)
    outs, first = [], []
    for k in seq:
        o = W.run_source(flow, param, sources[k])
        outs.append(o)
        first.append((W.snapshot(o), reads(o, ids)))
    last = [(W.snapshot(o), reads(o, ids)) for o in outs]
    return first, last


def trim(d):
    return "; ".join(str(x)[:160] for x in sorted(d)[:5]) + (f" ... {len(d)} in all" if len(d) > 5 else "")


@prop("P25", "sequences", 96, 4000)
def sequences(g):
    """every source of a sequence gives what it gives alone, and keeps it"""
    P = W.parameters(g)
    if g.chance(40):
        g.label("calibration " + W.focus_on_calibration(g, P))
    n = g.i(2, 3)
    table = W.measured_only(g, P, n) if "galaxy" in P["spectrumModels"] and g.chance(20) else None
    sources = [W.source(g, k) for k in range(n)]
    for k in range(n):
        if g.chance(30):
            sources[k] = W.spoil(g, sources[k], g.pick(W.FAULTS))
    seq = [g.i(0, n - 1) for _ in range(g.i(n, n + 1))]
    if len(set(seq)) == 1:
        seq.append((seq[0] + 1) % n)
    describe(g, P, sources)
    g.note("order", seq)

    def all_runs(config):
        flow, param = W.make_flow(P, config)
        alone = {k: W.in_child(lambda: run_sequence(flow, param, [k], sources)[0][0]) for k in sorted(set(seq))}
        return alone, W.in_child(lambda: run_sequence(flow, param, seq, sources))

    alone, series = ok(W.with_table(table, lambda config: W.in_child(lambda: all_runs(config), 200)), "flow")
    first, last = ok(series, "sequence")
    failed = 0
    for pos, k in enumerate(seq):
        ref = ok(alone[k], f"source {k} alone")
        failed += bool(ref[0]["errors"])
        for what, s in (("after-others", first[pos]), ("read-later", last[pos])):
            d = W.differences(ref[0], s[0])
            require(not d, what, lambda: f"source {k} at position {pos} of {seq}, differs from alone: {trim(d)}")
            d = W.differences(ref[1], s[1])
            require(not d, "attributes-" + what, lambda: f"source {k} at position {pos} of {seq}, differs from alone: {trim(d)}")
    g.label("a source failed" if failed else "all sources processed")
    g.nontrivial(len(set(seq)) > 1)


def break_model(g, s):
    """makes one stage of a spectrum model fail; gives the stage"""
    meth = s["redshiftSolver"]["method"]
    o = s["redshiftSolver"][meth]
    if "lineMeasSolver" in s["stages"] and g.b():
        lm = s["lineMeasSolver"]["lineMeasSolve"]["lineModel"]
        what = g.pick(["method", "missing"])
        if what == "method":
            lm["fittingMethod"] = "unheard of"
        else:
            del lm["lineWidthType"]
        return "lineMeasSolver"
    # (with fft, the range is first used to prepare the templates of all models: not a failure of this one)
    what = g.pick(["missing", "value"] if o.get("fftProcessing") or o.get("lineModel", {}).get("continuumFit", {}).get("fftProcessing") else ["missing", "range", "value"])
    g.note(what)
    if what == "range":
        s["redshiftRange"] = [30., 31.]
    elif what == "missing":
        del (o["lineModel"] if meth == "lineModelSolve" else o)["pdfCombination"]
    elif meth == "lineModelSolve":
        o["lineModel"]["fittingMethod"] = "unheard of"
    else:
        o["spectrum"]["component"] = "unheard of"
    return "redshiftSolver"


def enabled(s):
    """the stages that run for one spectrum model of the generated parameters"""
    meth = s["redshiftSolver"]["method"]
    r = ["redshiftSolver"]
    if meth == "lineModelSolve" and s["redshiftSolver"][meth]["lineModel"]["lineRatioType"] in ("tplRatio", "tplCorr"):
        r.append("subClassifSolver")
    if "lineMeasSolver" in s["stages"]:
        r.append("lineMeasSolver")
    return r


@prop("P25", "failures", 96, 4000)
def failures(g):
    """an error is recorded for the stage that failed and those that depend on it; the others are still processed"""
    P = W.parameters(g, models=g.pick([["galaxy", "star"], ["star", "galaxy"], ["galaxy", "star", "qso"], ["galaxy"], ["qso", "galaxy"]]))
    models = P["spectrumModels"]
    src = W.source(g, 0)
    broken = {m: None for m in models}
    B = copy.deepcopy(P)
    for m in g.draw_subset(models):
        broken[m] = break_model(g, B[m])
    describe(g, P, [src])
    g.note("broken", broken)

    def both():
        def good():
            fl, pa = W.make_flow(P)
            return W.snapshot(W.run_source(fl, pa, src))

        def bad():
            fl, pa = W.make_flow(B)
            return W.snapshot(W.run_source(fl, pa, src))
        return W.in_child(good), W.in_child(bad)

    good, bad = ok(W.in_child(both, 200), "flow")
    good, bad = ok(good, "unbroken"), ok(bad, "broken")
    if good["errors"]:  # a source without any signal, for instance
        g.label("fails unbroken " + ",".join(sorted(v["code"] for v in good["errors"].values())))
        return
    expect = {}
    for m in models:
        st = broken[m]
        if st:
            expect[f"{st}_{m}"] = "cause"
            if st == "redshiftSolver":
                for d in enabled(B[m])[1:]:
                    expect[f"{d}_{m}"] = "consequence"
    all_failed = all(broken[m] == "redshiftSolver" for m in models)
    if all_failed:
        expect["classification"] = "cause"
    got = bad["errors"]
    require(set(got) == set(expect), "error-set", lambda: f"errors {sorted((k, v['code'], v['message']) for k, v in got.items())}, expected {expect}")
    for k, kind in expect.items():
        e = got[k]
        require((e["code"] == CONSEQUENT) == (kind == "consequence"), "error-code", lambda: f"{k}: {e}, expected {kind}")
        if kind == "consequence":
            require("redshiftSolver" in e["message"], "error-message", lambda: f"{k}: {e}")
        else:
            require(bool(e["message"]) and (k == "classification" or bool(e["method"])), "error-message", lambda: f"{k}: {e}")
    if all_failed:
        require(got["classification"]["code"] == "NO_CLASSIFICATION", "no-classification", lambda: str(got["classification"]))
        require("Type" not in bad["root"].get("classification", {}), "classified", lambda: str(bad["root"]))
    else:
        require("Type" in bad["root"].get("classification", {}), "not-classified", lambda: str(bad["root"]))
        left = [m for m in models if broken[m] != "redshiftSolver"]
        c, c0 = bad["root"]["classification"], good["root"]["classification"]
        require(c["Type"] in left, "classified-failed", lambda: f"{c['Type']}, left {left}")
        ev = {m: c0[m + "LogEvidence"] for m in left}
        mx = max(ev.values())
        tot = sum(np.exp(v - mx) for v in ev.values())
        for m in models:
            p = np.exp(ev[m] - mx) / tot if m in left else 0.
            require(abs(c[m + "Proba"] - p) < 1e-9, "proba-of-the-rest", lambda: f"{m}: {c}, expected {p}")
    for m in models:
        a, b = good["objects"][m], bad["objects"][m]
        if broken[m] is None:
            d = W.differences(a, b)
            require(not d, "others-changed", lambda: f"{m}, with {broken}: {trim(d)}")
        elif broken[m] == "redshiftSolver":
            left = [k for k, v in b.items() if v and k != "warningFlag"]
            require(not left, "failed-has-results", lambda: f"{m}: {left}")
        else:
            d = [x for x in W.differences(a, b) if not x.startswith("/linemeas") and not x.startswith("/warningFlag")]
            require(not d, "stage-before-changed", lambda: f"{m}, with {broken}: {trim(d)}")
            left = [k for k, v in b.items() if v and k.startswith("linemeas")]
            require(not left, "failed-has-results", lambda: f"{m}: {left}")
    g.nontrivial(any(broken.values()))


@prop("P25", "scaling", 48, 2000)
def scaling(g):
    """flux and errors in another unit: the same redshifts and probabilities"""
    P = W.parameters(g)
    src = W.source(g, 0)
    k = g.pick([2. ** 10, 2. ** -12, 2. ** 60, 2. ** -3])
    s2 = dict(src, f=src["f"] * k, e=src["e"] * k, phot={b: (x * k, y * k) for b, (x, y) in src["phot"].items()})
    describe(g, P, [src])
    g.note("factor", k)

    def both():
        fl, pa = W.make_flow(P)
        return W.in_child(lambda: W.snapshot(W.run_source(fl, pa, src))), W.in_child(lambda: W.snapshot(W.run_source(fl, pa, s2)))

    a, b = ok(W.in_child(both, 200), "flow")
    a, b = ok(a, "source"), ok(b, "scaled")
    require(set(a["errors"]) == set(b["errors"]), "errors", lambda: f"{a['errors']} and {b['errors']}")
    g.nontrivial(not a["errors"])

    def near(x, y, tol):
        return np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True)

    for m in P["spectrumModels"]:
        x, y = a["objects"][m], b["objects"][m]
        if "pdf" in x:
            require(near(np.exp(x["pdf"]["LogZPdfNative"]), np.exp(y["pdf"]["LogZPdfNative"]), 1e-6), "pdf",
                    lambda: f"{m}: {np.max(np.abs(np.exp(x['pdf']['LogZPdfNative']) - np.exp(y['pdf']['LogZPdfNative'])))}")
        mx, my = x.get("model_parameters", []), y.get("model_parameters", [])
        require(len(mx) == len(my), "candidates", lambda: f"{m}: {len(mx)} and {len(my)}")
        for r, (u, v) in enumerate(zip(mx, my)):
            for q in ("Redshift", "RedshiftProba", "RedshiftUncertainty", "ContinuumName", "LinesRatioName", "ContinuumIsmCoeff",
                      "VelocityEmission", "SubType"):
                if q in u:
                    same = u[q] == v.get(q) if isinstance(u[q], str) else near(u[q], v.get(q, np.nan), 1e-6)
                    require(same, "candidate-" + q, lambda: f"{m}[{r}]: {u[q]} and {v.get(q)}")
            for q in ("ContinuumAmplitude", "LinesRatioAmplitudeEm"):
                if q in u:
                    require(near(u[q] * k, v[q], 1e-6 * abs(u[q] * k) if u[q] == u[q] else 0) or abs(u[q] * k - v[q]) <= 1e-6 * abs(v[q]),
                            "amplitude-" + q, lambda: f"{m}[{r}]: {u[q]} times {k} and {v[q]}")
    # (evidences from the spectrum itself and from a spectrum resampled for fft do not scale alike)
    mixed = len({P[m]["redshiftSolver"]["method"] == "templateFittingSolve" and P[m]["redshiftSolver"]["templateFittingSolve"]["fftProcessing"]
                 for m in P["spectrumModels"]}) > 1
    # (models asked to fit different data, with the photometry and without: their evidences are not comparable, not asserted)
    if len({any(dict(P[m]["redshiftSolver"][P[m]["redshiftSolver"]["method"]].get(k, {}) if k else
                     P[m]["redshiftSolver"][P[m]["redshiftSolver"]["method"]]).get("enablePhotometry", False) for k in ("", "lineModel"))
            for m in P["spectrumModels"]}) > 1:
        return
    ca, cb = a["root"].get("classification", {}), b["root"].get("classification", {})
    require(ca.get("Type") == cb.get("Type"), "class-of-mixed-samplings" if mixed else "type", lambda: f"{ca} and {cb}")
    for q in ca:
        if q.endswith("Proba"):
            require(near(ca[q], cb[q], 1e-6), "class-of-mixed-samplings" if mixed else "class-proba", lambda: f"{ca} and {cb}")
