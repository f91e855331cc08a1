"""P24: what is written for a source is what was computed for it, complete and under the documented names."""
import csv
import math
import os

import numpy as np

import amzworld as W
from engine import prop, require
from hypothesis import strategies as st

ROOT_STAGES = ["init", "classification", "load_result_store"]
MODEL_STAGES = ["redshiftSolver", "linemeas_catalog_load", "lineMeasSolver", "reliabilitySolver", "subClassifSolver"]

# the documented results: name, dataset, extended, level, member, key in the result store
SPEC = list(csv.DictReader(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p24_spec.tsv")), delimiter="\t"))
for _r in SPEC:
    _r["extended"] = _r["extended_results"].lower() == "true"


# ---------------------------------------------------------------- reading a file back

def scalar(v):
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, np.generic):
        return scalar(v.item())
    return v


def same(a, b):
    """same value, whatever the width of its type"""
    if isinstance(a, (list, np.ndarray)) or isinstance(b, (list, np.ndarray)):
        a, b = np.atleast_1d(a), np.atleast_1d(b)
        return a.shape == b.shape and all(same(scalar(x), scalar(y)) for x, y in zip(a, b))
    a, b = scalar(a), scalar(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or (a != a and b != b)


def h5_dataset(node):
    """columns of a table, or attributes of a group"""
    import h5py
    if isinstance(node, h5py.Dataset):
        t = node[:]
        return {c: t[c] for c in t.dtype.names}
    return {k: node.attrs[k] for k in node.attrs}


def compare_columns(path, expected, node, key="dataset"):
    got = h5_dataset(node)
    require(set(got) == set(expected), key + "-columns", lambda: f"{path}: {sorted(got)}, expected {sorted(expected)}")
    for c, v in expected.items():
        require(same(v, got[c]), key + "-value", lambda: f"{path}/{c}: {got[c]!r}, expected {v!r}")


def size_of(columns):
    return max((len(v) if isinstance(v, np.ndarray) else 1) for v in columns.values()) if columns else 0


def compare_file(root, name, roots, objects, errors, models, solver, excluded):
    """the group of a source against what its output holds"""
    require(list(root) == [name], "groups", lambda: f"{list(root)}")
    obs = root[name]
    init = "init" in errors
    expected = set(roots) | {s + "_error" for s in ROOT_STAGES if s in errors} | (set() if init else set(models))
    require(set(obs) == expected, "root-groups", lambda: f"{sorted(obs)}, expected {sorted(expected)}")
    for ds, cols in roots.items():
        compare_columns(ds, cols, obs[ds], "root")
    for s in ROOT_STAGES:
        if s in errors:
            compare_columns(s + "_error", errors[s], obs[s + "_error"], "error")
    if init:
        return
    for m in models:
        g = obs[m]
        kept = {d: v for d, v in objects[m].items() if d not in excluded.get(m, [])}
        flat = {d: v for d, v in kept.items() if isinstance(v, dict)}
        lists = {d: v for d, v in kept.items() if isinstance(v, list)}
        n = max([len(v) for v in objects[m].values() if isinstance(v, list)], default=0)
        errs = [s for s in MODEL_STAGES if f"{s}_{m}" in errors]
        expected = {d for d, v in flat.items() if v} | {s + "_error" for s in errs} | ({"candidates"} if n and solver[m] else set())
        got = set(g)
        # an empty set of results may be written as an empty group
        require(expected <= got and all(d in flat and not flat[d] for d in got - expected), "object-groups",
                lambda: f"{m}: {sorted(got)}, expected {sorted(expected)}")
        for d, cols in flat.items():
            if cols:
                compare_columns(f"{m}/{d}", cols, g[d])
        for s in errs:
            compare_columns(f"{m}/{s}_error", errors[f"{s}_{m}"], g[s + "_error"], "error")
        if "candidates" in g:
            names = list(g["candidates"])
            require(len(names) == n, "candidates", lambda: f"{m}: {names}, {n} candidates")
            for r in range(n):
                c = "candidate" + chr(65 + r)
                require(c in names, "candidates", lambda: f"{m}: {names}, {c} expected")
                node = g["candidates"][c]
                full = {d: v[r] for d, v in lists.items() if v[r] and size_of(v[r])}
                require(set(node) == set(full), "candidate-groups", lambda: f"{m}/{c}: {sorted(node)}, expected {sorted(full)}")
                for d, cols in full.items():
                    compare_columns(f"{m}/{c}/{d}", cols, node[d], "candidate")


def write_and_compare(output, name, roots, objects, errors, models, solver, excluded):
    import h5py
    from pylibamazed.H5Writer import H5Writer
    with h5py.File("none.h5", "w", driver="core", backing_store=False) as f:
        w = H5Writer(output)
        w.excluded_datasets = excluded
        w.write_hdf5(f, name)
        compare_file(f, name, roots, objects, errors, models, solver, excluded)


# ---------------------------------------------------------------- outputs filled by hand

class FakeParameters:
    def __init__(self, solver):
        self.solver = solver

    def get_spectrum_models(self, default=None):
        return list(self.solver)

    def get_redshift_solver_method(self, m):
        return self.solver[m]


FLOATS = st.one_of(st.floats(width=64), st.sampled_from([0., -0., math.nan, math.inf, -math.inf, 1e-300, 1e300]))
TEXT = st.text(alphabet="abcXYZ019_-[]() .", max_size=12)
NAMES = ["Redshift", "RedshiftProba", "Type", "Rank", "Flux", "SubType", "Lambda", "NDof", "Mask", "Name"]


def value(g, kind):
    if kind == "f":
        return g.draw(FLOATS)
    if kind == "i":
        return g.i(-2 ** 31, 2 ** 31 - 1)
    if kind == "b":
        return g.b()
    return g.draw(TEXT)


def column(g, kind, n):
    v = [value(g, kind) for _ in range(n)]
    if kind == "s":
        # (a column of text of which nothing is set has no type of its own)
        v = [x or "x" for x in v]
        return np.array(v) if g.b() else np.array(v, dtype=object)
    return np.array(v, dtype={"f": float, "i": np.int32, "b": bool}[kind])


def scalars(g, lo=0):
    names = g.draw(st.lists(st.sampled_from(NAMES), min_size=lo, max_size=4, unique=True))
    return {k: value(g, g.pick("ffis")) for k in names}


def table(g, n):
    names = g.draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    return {k: column(g, g.pick("ffibs"), n) for k in names}


def some_dataset(g, lo=0):
    n = g.pick([0, 0, 1, 2, 3, 7])
    return scalars(g, lo) if n == 0 else table(g, n)


def describe(columns):
    return {k: (f"{v.dtype.kind}{len(v)}" if isinstance(v, np.ndarray) else v) for k, v in columns.items()}


@prop("P24", "written", 1600, 60000)
def written(g):
    """an output filled with any results, written and read back"""
    from pylibamazed.AbstractOutput import AbstractOutput
    models = g.draw(st.lists(st.sampled_from(["galaxy", "star", "qso", "my_model"]), min_size=1, max_size=3, unique=True))
    solver = {m: g.pick(["lineModelSolve", "templateFittingSolve", None]) for m in models}
    out = AbstractOutput(FakeParameters(solver))
    for ds in g.draw_subset(["classification", "init_warningFlag", "context_warningFlag"]):
        out.root_results[ds] = scalars(g)
    many = g.chance(5)
    for m in models:
        for ds in g.draw_subset(["pdf", "linemeas", "pdf_params", "warningFlag", "reliability"]):
            out.object_results[m][ds] = some_dataset(g)
        if solver[m]:
            n = g.i(27, 30) if many else g.i(0, 4)
            for ds in g.draw_subset(["model_parameters", "fitted_lines", "model", "line_mask"]):
                shape = [some_dataset(g) for _ in range(n)] if not many else [scalars(g, 1)] * n
                out.object_results[m][ds] = shape
        g.note(m, solver[m], {k: describe(v) if isinstance(v, dict) else [describe(c) for c in v] for k, v in out.object_results[m].items()})
    err = lambda: {"code": g.pick(["INTERNAL_ERROR", "FLAT_ZPDF"]), "message": g.draw(TEXT), "line": g.i(-1, 999), "filename": g.draw(TEXT),
                   "method": g.draw(TEXT)}
    for s in ROOT_STAGES:
        if g.chance(8):
            out.errors[s] = err()
    for m in models:
        for s in MODEL_STAGES:
            if g.chance(20):
                out.errors[f"{s}_{m}"] = err()
    excluded = {m: g.draw_subset(["pdf", "fitted_lines", "linemeas"]) for m in g.draw_subset(models)} if g.chance(30) else {}
    g.note("root", out.root_results, "errors", sorted(out.errors), "excluded", excluded)
    name = g.pick(["spectrum", "12345", "obs-0_1"])
    snap = W.snapshot(out)
    write_and_compare(out, name, snap["root"], snap["objects"], snap["errors"], models, solver, excluded)
    d = W.differences(snap, W.snapshot(out))
    require(not d, "output-changed", lambda: f"by the writer: {d[:5]}")
    g.nontrivial(any(size_of(c) for m in models for v in out.object_results[m].values() for c in (v if isinstance(v, list) else [v])))


# ---------------------------------------------------------------- outputs of the pipeline

def to_python(v, index=None):
    t = type(v).__name__
    if t == "TMapFloat64":
        return v[index]
    if t == "TMapTFloat64List":
        return v.to_numpy(index)
    if t in ("TFloat64List", "TInt32List", "TBoolList"):
        return v.to_numpy()
    if t == "TStringList":
        return np.array(v)
    if t == "CMask":
        return v.getMaskList().to_numpy()
    return v


def member(result, path):
    """value of a member of a result, nothing when it has no such member"""
    name, index = path, None
    if "[" in path:
        name, index = path[:-1].split("[")
    r = result
    for p in name.split("."):
        if not hasattr(r, p):
            return None
        r = getattr(r, p)
    return r if index is None else (r, index)


def observations(P):
    return list(P["lambdaRange"]) if isinstance(P["lambdaRange"], dict) else [""]


def store_of(flow, P, m):
    """results of one spectrum model straight from the result store: {dataset: {name: value}} and {dataset: [{..} per rank]}"""
    s = flow.process_flow_context.GetResultStore()
    o, c = {}, {}
    methods = []
    if "redshiftSolver" in P[m]["stages"]:
        methods.append(("redshiftSolver", P[m]["redshiftSolver"]["method"]))
    if "lineMeasSolver" in P[m]["stages"]:
        methods.append(("lineMeasSolver", "lineMeasSolve"))
    get = {"CLogZPdfResult": "GetLogZPdfResult", "CModelSpectrumResult": "GetModelSpectrumResult", "CLineModelSolution": "GetLineModelSolution"}
    for r in SPEC:
        name, ds, key, path = r["name"], r["dataset"], r["ResultStore_key"], r["OperatorResult_name"]
        plain_ds = ds.replace("<ObsID>", "")
        for stage, method in methods:
            if r["level"] == "object" and s.HasDataset(m, stage, method, plain_ds):
                t = s.GetGlobalResultType(m, stage, method, key)
                res = getattr(s, get.get(t, "Get" + t[1:]))(m, stage, method, key)
            elif r["level"] == "method" and s.HasDataset(m, stage, method, plain_ds):
                res = s.GetFlagLogResult(m, stage, method, key)
                name = r["name"].replace("<MethodType>", method)
            else:
                continue
            v = member(res, path)
            if isinstance(v, tuple):
                for obs in observations(P):
                    if obs in v[0]:
                        o.setdefault(ds.replace("<ObsID>", obs), {})[name] = (to_python(v[0], obs), r["extended"])
            elif v is not None:
                o.setdefault(plain_ds, {})[name] = (to_python(v), r["extended"])
        if r["level"] != "candidate" or not key or not methods or methods[0][0] != "redshiftSolver":
            continue
        stage, method = methods[0]
        if not s.HasCandidateDataset(m, stage, method, key, plain_ds):
            continue
        first = name.startswith("Firstpass")
        if first and (method != "lineModelSolve" or P[m]["redshiftSolver"][method]["lineModel"]["skipSecondPass"]):
            continue
        n = s.getNbRedshiftCandidates(m, stage, method)
        rows = c.setdefault(plain_ds, [{} for _ in range(n)]) if ds == plain_ds else None
        t = s.GetCandidateResultType(m, stage, method, key, plain_ds)
        for rank in range(n):
            if t == "TLineModelResult":
                res = s.GetLineModelResult(m, stage, method, key, plain_ds, rank, first)
            else:
                res = getattr(s, get.get(t, "Get" + t[1:]))(m, stage, method, key, plain_ds, rank)
            v = member(res, path)
            if isinstance(v, tuple):
                if "BandName" in name:
                    if v[0]:
                        for b in P["photometryBand"]:
                            if b in v[0]:
                                rows[rank][b] = (to_python(v[0], b), r["extended"])
                    continue
                for obs in observations(P):
                    if v[0] and obs in v[0]:
                        more = c.setdefault(ds.replace("<ObsID>", obs), [{} for _ in range(n)])
                        more[rank][name] = (to_python(v[0], obs), r["extended"])
            elif v is not None:
                rows[rank][name] = (to_python(v), r["extended"])
    return o, c


def kept(cols, extended):
    return {k: v for k, (v, e) in cols.items() if extended or not e}


def expected_of(flow, P, m, extended):
    """datasets of a spectrum model as the output has to hold them"""
    o, c = store_of(flow, P, m)
    exp = {"warningFlag": {}}
    for ds, cols in o.items():
        if extended or not all(e for _, e in cols.values()):
            exp[ds] = kept(cols, extended)
    for ds, rows in c.items():
        if extended or not all(r["extended"] for r in SPEC if any(r["dataset"].replace("<ObsID>", x) == ds for x in observations(P))):
            exp[ds] = [kept(x, extended) for x in rows]
    return exp


def read_live(flow, param, P, extended):
    """what the attribute interface gives before the output is loaded"""
    from pylibamazed.ResultStoreOutput import ResultStoreOutput
    o = ResultStoreOutput(flow.process_flow_context.GetResultStore(), param, auto_load=False, extended_results=extended)
    r = {}
    for m in P["spectrumModels"]:
        for name in ("Redshift", "RedshiftProba", "RedshiftUncertainty", "Rank"):
            for rank in range(4):
                if o.has_attribute(m, "model_parameters", name, rank):
                    r[m, name, rank] = o.get_attribute(m, "model_parameters", name, rank)
    return r


@prop("P24", "pipeline", 120, 5000)
def pipeline(g):
    """the output of a run against the result store it was read from, and against the file written from it"""
    P = W.parameters(g)
    src = W.source(g, 0)
    if g.chance(12):
        src = W.spoil(g, src, g.pick(W.FAULTS))
    extended = g.chance(60)
    models = P["spectrumModels"]
    for m in models:
        meth = P[m]["redshiftSolver"]["method"]
        g.label(meth)
        lm = P[m]["redshiftSolver"][meth].get("lineModel", {})
        g.note(m, meth, P[m]["redshiftSampling"], {k: lm[k] for k in ("continuumComponent", "lineRatioType", "skipSecondPass") if k in lm}, P[m]["stages"])
    order = g.rng()
    for x in W.options(P):
        g.label(x)
    g.note(W.options(P), src["kind"], len(src["w"]), "extended" if extended else "not extended")

    def body():
        flow, param = W.make_flow(P, {"extended_results": extended})
        out = W.run_source(flow, param, src)
        snap = W.snapshot(out)
        store = flow.process_flow_context.GetResultStore()
        if "init" not in snap["errors"]:
            for m in models:
                got, exp = dict(snap["objects"][m]), expected_of(flow, P, m, extended)
                # the sub-type is not kept in the store
                tpl = P[m]["redshiftSolver"]["method"] == "lineModelSolve" and P[m]["redshiftSolver"]["lineModelSolve"]["lineModel"]["lineRatioType"] == "tplRatio"
                if tpl and "model_parameters" in got:
                    got["model_parameters"] = [dict(x) for x in got["model_parameters"]]
                    for x in got["model_parameters"]:
                        require(x.pop("SubType", "") in ("SF", "P"), "sub-type", lambda: f"{m}: {snap['objects'][m]['model_parameters']}")
                # (no value at all for any candidate: as good as no dataset)
                exp, got = ({k: v for k, v in x.items() if not isinstance(v, list) or any(v)} for x in (W.plain(exp), got))
                d = W.differences(exp, got)
                require(not d, "not-the-store", lambda: f"{m}: {d[:6]}")
            check_models(flow, P, out, snap, store, models, extended)
            wanted = {}
            for m in models:
                wanted.update(line_values(flow, out, m, snap["objects"][m]))
            names = list(wanted)
            order.shuffle(names)
            short = out.get_attributes(names, flow.calibration_library.get_lines_ids(names))
            for k, v in wanted.items():
                require(k in short and same(short[k], v), "line-short-name", lambda: f"{k}: {short.get(k)!r}, {v!r} in the row of the line")
            live = read_live(flow, param, P, extended)
            for (m, name, rank), v in live.items():
                require(out.has_attribute(m, "model_parameters", name, rank) and same(out.get_attribute(m, "model_parameters", name, rank), v),
                        "read-live", lambda: f"{m} {name} {rank}: {v}")
        solver = {m: P[m]["redshiftSolver"]["method"] for m in models}
        write_and_compare(out, src["name"], snap["root"], snap["objects"], snap["errors"], models, solver, {})
        return snap

    r = W.in_child(body, 150)
    require(r[0] == "ok", "run-" + r[0], lambda: str(r[1]))
    errors = r[1]["errors"]
    g.label("an error" if errors else "no error")
    g.nontrivial(any(v for v in r[1]["objects"].values()))


def line_values(flow, out, m, obj):
    """short name of every value of every line, and that value in the row of the line"""
    catalogs = flow.calibration_library.line_catalogs_df[m]
    tables = [("FittedLineID", f".{k}", t) for k, t in enumerate(obj.get("fitted_lines", []))]
    if "linemeas" in obj:
        tables.append(("LinemeasLineID", "", obj["linemeas"]))
    wanted = {}
    for idcol, suffix, t in tables:
        cat = catalogs["lineMeasSolve" if idcol[0] == "L" else "lineModelSolve"]
        rows = dict(zip(cat.index, cat["Name"]))
        ids = list(np.atleast_1d(t[idcol]))
        wanted.update({f"{m}.{rows[i]}.{c}{suffix}": np.atleast_1d(t[c])[ids.index(i)] for i in ids if i in rows for c in t})
    return wanted


def check_models(flow, P, out, snap, store, models, extended):
    from pylibamazed.PdfHandler import BuilderPdfHandler
    ids = flow.calibration_library.get_lines_ids([])
    cls = snap["root"].get("classification", {})
    solved = [m for m in models if f"redshiftSolver_{m}" not in snap["errors"]]
    if solved:
        require(set(cls) == {"Type", "WarningFlags"} | {m + q for m in models for q in ("LogEvidence", "Proba")}, "classification-columns",
                lambda: f"{sorted(cls)} for {models}")
        best = max(solved, key=lambda m: cls[m + "Proba"])
        require(cls["Type"] in solved and cls[cls["Type"] + "Proba"] == cls[best + "Proba"], "type", lambda: str(cls))
        require(abs(sum(cls[m + "Proba"] for m in models) - 1.) < 1e-9, "class-proba", lambda: str(cls))
    for m in solved:
        meth = P[m]["redshiftSolver"]["method"]
        obj = snap["objects"][m]
        pdf = store.GetLogZPdfResult(m, "redshiftSolver", meth, "pdf")
        log = P[m]["redshiftSampling"] == "log"
        for first in (False, True):
            if first and "firstpass_pdf" not in obj:
                continue
            ref = store.GetLogZPdfResult(m, "redshiftSolver", meth, "firstpass_pdf") if first else pdf
            h = BuilderPdfHandler().add_params(out, m, log, first).build()
            z, v, z0, v0 = h.redshifts, h.valProbaLog, ref.redshifts.to_numpy(), ref.valProbaLog.to_numpy()
            require(len(z) == len(z0) and np.allclose(z, z0, rtol=1e-12, atol=1e-12), "pdf-grid", lambda: f"{m} first pass {first}: {len(z)} and {len(z0)}, {z[:3]} {z0[:3]}")
            require(np.array_equal(v, v0, equal_nan=True), "pdf-values", lambda: f"{m} first pass {first}")
            require(np.all(np.diff(z) > 0), "pdf-grid-order", lambda: f"{m} first pass {first}: {z}")
        for obs in observations(P):
            # (the combination of templates looks at the first observation only)
            require(all(len(x.get("ModelFlux", [])) > 1 for x in obj["model" + obs]) or meth == "tplCombinationSolve" and obs != observations(P)[0],
                    "model-of-observation", lambda: f"{m}: {obs}")
            if "linemeas" in obj:
                require(len(obj["linemeas_model" + obs].get("ModelFlux", [])) > 1, "model-of-observation", lambda: f"{m}: lines, {obs}")
        zr = [z0 for z0 in pdf.redshifts.to_numpy()]
        cand = obj["model_parameters"]
        require(1 <= len(cand) <= P[m]["redshiftSolver"][meth].get("lineModel", P[m]["redshiftSolver"][meth])["extremaCount"], "candidate-count",
                lambda: f"{m}: {len(cand)}")
        for k, x in enumerate(cand):
            require(x["Rank"] == k, "rank", lambda: f"{m}: {[y['Rank'] for y in cand]}")
            require(min(zr) - 1e-9 <= x["Redshift"] <= max(zr) + 1e-9, "redshift-range", lambda: f"{m}: {x['Redshift']}, {zr[0]}..{zr[-1]}")
            # (a candidate merged with a close one keeps no range and a probability of 0)
            require(x["RedshiftProbaZmin"] <= x["Redshift"] <= x["RedshiftProbaZmax"] or x["RedshiftProba"] == 0., "proba-range", lambda: f"{m}: {x}")
            require(0 <= x["RedshiftProba"] <= 1. + 1e-6, "proba", lambda: f"{m}: {x['RedshiftProba']}")
        pr = [x["RedshiftProba"] for x in cand]
        require(all(a >= b for a, b in zip(pr, pr[1:])), "rank-order", lambda: f"{m}: {pr}")
        # the short names give the same
        short = out.get_attributes([f"{m}.Redshift", f"{m}.Redshift.0", f"{m}.RedshiftProba.{len(cand) - 1}", f"{m}.Redshift.{len(cand)}"], ids)
        require(short[f"{m}.Redshift"] == cand[0]["Redshift"] == short[f"{m}.Redshift.0"] and short[f"{m}.RedshiftProba.{len(cand) - 1}"] == pr[-1],
                "short-names", lambda: f"{m}: {short}, {[x['Redshift'] for x in cand]} {pr}")
        require(short.get(f"{m}.Redshift.{len(cand)}") is None, "short-name-of-no-candidate", lambda: f"{m}: {short}")
        if "linemeas_parameters" in obj and P[m]["stages"] == ["redshiftSolver", "lineMeasSolver"]:
            zc, dz = cand[0]["Redshift"], P[m]["lineMeasDzHalf"]
            zm = obj["linemeas_parameters"]["LinemeasRedshift"]
            require(abs(zm - zc) <= dz * (1 + zc) * 1.01 + 1e-9, "measured-redshift", lambda: f"{m}: lines measured at {zm}, redshift {zc}")


@prop("P24", "rebuilt_posterior", 1500, 30000)
def rebuilt_posterior(g):
    """a posterior rebuilt from the stored table of its windows has the redshifts of the grid it was computed on"""
    from pylibamazed.PdfHandler import BuilderPdfHandler
    from pylibamazed.redshift import CZGridListParams, CZGridParam, TFloat64Range
    log, first = g.b(), g.chance(30)
    z0 = g.pick([0., g.f(0., 3.)])
    z1 = z0 + g.f(0.05, 2.)
    step = (z1 - z0) / (1 + z1) / g.i(5, 80)
    rows = [(z0, z1, step, float("nan"))]
    nw = 0 if first else g.i(0, 4)
    edges = np.linspace(z0, z1, 2 * nw + 2)
    for k in range(nw):  # windows apart from each other
        a, b = edges[2 * k], edges[2 * k + 1]
        c = g.f(float(a), float(b))
        half = g.f(0.05, 1.) * (b - a)
        lo, hi = max(a, c - half), min(b, c + half)
        s = step if g.chance(25) else step / g.f(1., 12.)
        if hi - lo > 2.5 * s * (1 + z1):
            rows.append((float(lo), float(hi), s, c))
    if g.b():
        rows[1:] = rows[:0:-1]
    g.note("log", log, "first", first, rows)
    with_windows = len(rows) > 1
    try:
        z = np.array(CZGridListParams([CZGridParam(TFloat64Range(*r[:2]), *r[2:]) for r in rows]).getZGrid(log))
    except Exception:
        g.label("no grid")
        return
    v = np.array([math.sin(k) for k in range(len(z))])
    col = ["FPZmin", "FPZmax", "FPZstep", "FPZcenter"] if first else ["zmin", "zmax", "zstep", "zcenter"]
    table = {n: np.array([r[k] for r in rows]) for k, n in enumerate(col) if n != "FPZcenter"}

    class Stored:
        def get_dataset(self, model, name):
            require(model == "galaxy", "model", name)
            return {"firstpass_pdf_params": table, "firstpass_pdf": {"FirstpassLogZPdfNative": v}} [name] if first else \
                {"pdf_params": table, "pdf": {"LogZPdfNative": v}}[name]

    h = BuilderPdfHandler().add_params(Stored(), "galaxy", log, first).build()
    require(np.array_equal(h.redshifts, z), "pdf-grid", lambda: f"{len(h.redshifts)} redshifts and {len(z)}, first difference at "
            f"{[i for i, (a, b) in enumerate(zip(h.redshifts, z)) if a != b][:1]}")
    require(np.array_equal(h.valProbaLog, v), "pdf-values", "")
    g.label("with windows" if with_windows else "one grid")
    if with_windows:
        g.nontrivial()
