"""P23: what a reader delivers is exactly what was loaded, filtered, merged and in vacuum."""
import contextlib
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from engine import prop, require
from pylibamazed.AbstractSpectrumReader import AbstractSpectrumReader
from pylibamazed.ASCIISpectrumReader import ASCIISpectrumReader
from pylibamazed.Container import Container
from pylibamazed.Exception import APIException
from pylibamazed.Filter import FilterItem, FilterList, SpectrumFilterItem
from pylibamazed.FilterLoader import ParamJsonFilterLoader
from pylibamazed.Parameters import Parameters
from pylibamazed.redshift import AmzException, CProcessFlowContext

OPS_ANY = ["<", ">", "<=", ">=", "=", "!=", "in", "~in"]
OPS_INT = ["&", "~&", "0&", "^", "~^"]


class NoCheck:
    def __init__(self, parameters):
        pass

    def json_schema_check(self, version):
        pass

    def custom_check(self):
        pass


def row_ok(x, op, v):
    """the documented meaning of one filter for one value, in plain Python"""
    if op == "<":
        return x < v
    if op == ">":
        return x > v
    if op == "<=":
        return x <= v
    if op == ">=":
        return x >= v
    if op == "=":
        return x == v
    if op == "!=":
        return x != v
    if op == "in":
        return any(x == y for y in v)
    if op == "~in":
        return not any(x == y for y in v)
    if op == "&":
        return (x & v) != 0
    if op == "~&":
        return (x & v) == 0
    if op == "0&":
        return x == 0 or (x & v) != 0
    if op == "^":
        return (x ^ v) != 0
    if op == "~^":
        return (x ^ v) == 0
    raise AssertionError(op)


def code_of(e):
    try:
        return e.getErrorCode().name
    except Exception:
        return type(e).__name__


def draw_filter(g, cols):
    """cols: {name: kind}"""
    key = g.pick(sorted(cols))
    kind = cols[key]
    if kind == "int":
        op = g.pick(OPS_ANY + OPS_INT)
        val = st.integers(-1, 9)
    else:
        op = g.pick(OPS_ANY)
        val = st.one_of(st.integers(-4, 4), st.sampled_from([-1.5, -0.5, 0.25, 0.5, 1.5, 2.5]))
        if kind == "wave":
            val = st.integers(0, 30).map(lambda k: 1000 + k * 0.5)
    v = g.draw(st.lists(val, max_size=4)) if op in ("in", "~in") else g.draw(val)
    return dict(key=key, instruction=op, value=v)


@prop("P23", "filters", 10000, 120000)
def filters(g):
    n = g.i(0, 12)
    cols = {"a": "int", "b": "float", "c": "nan", "d": "int"}
    data = {
        "a": np.array(g.draw(st.lists(st.integers(-1, 9), min_size=n, max_size=n)), dtype=int),
        "b": np.array(g.draw(st.lists(st.sampled_from([-1.5, -0.5, 0., 0.25, 0.5, 1., 2.]), min_size=n, max_size=n)), dtype=float),
        "c": np.array(g.draw(st.lists(st.sampled_from([np.nan, 0., 0.5, np.inf]), min_size=n, max_size=n)), dtype=float),
        "d": np.array(g.draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), dtype=int),
        "id": np.arange(n),
    }
    df = pd.DataFrame(data)
    if n and g.b():      # an index that is not 0..n-1 must not matter
        df.index = np.arange(n)[::-1] * 3
    copy = df.copy(deep=True)
    specs = [draw_filter(g, cols) for _ in range(g.i(0, 4))]
    fl = FilterList([FilterItem(**s) for s in specs[:2]])
    for s in specs[2:]:
        fl.add_filter(FilterItem(**s))
    res = fl.apply(df)
    keep = [i for i in range(n) if all(row_ok(data[s["key"]][i].item(), s["instruction"], s["value"]) for s in specs)]
    g.note("n", n, "filters", specs, "kept", len(keep))
    require(list(res["id"]) == keep, "filtered-rows", lambda: f"kept {list(res['id'])} expected {keep} filters {specs}")
    for c in data:
        require(np.array_equal(res[c].to_numpy(), data[c][keep], equal_nan=c == "c"), "row-mixed", lambda: f"column {c}")
    require(copy.equals(df) and list(copy.index) == list(df.index), "input-modified", "the data frame given was changed")
    again = fl.apply(res)
    require(list(again["id"]) == keep, "not-idempotent", "filtering twice differs")
    # one filter at a time, in the other order
    seq = df
    for s in reversed(specs):
        seq = FilterList([FilterItem(**s)]).apply(seq)
    require(list(seq["id"]) == keep, "order-of-filters", "one filter after the other differs from all at once")
    # loading from parameters gives the same list
    loaded = ParamJsonFilterLoader().get_filters(Parameters(
        {"version": 2, "lambdaRange": [0, 1], "spectrumModels": [], "multiObsMethod": "", "lsf": {"lsfType": "fromSpectrumData"},
         "airVacuumMethod": "", "filters": specs}, Checker=NoCheck))
    require(loaded == FilterList([SpectrumFilterItem(**s) for s in specs]), "filters-loaded", lambda: f"{loaded}")
    # refusals
    bad = g.pick(["none", "column", "instruction"])
    if bad == "column" and n:
        try:
            FilterList([FilterItem(**s) for s in specs] + [FilterItem("zz", g.pick(OPS_ANY), 1)]).apply(df)
            require(False, "unknown-column", "a filter on a column that does not exist was accepted")
        except APIException as e:
            require(code_of(e) == "INVALID_FILTER_KEY", "unknown-column-code", code_of(e))
    elif bad == "instruction":
        try:
            FilterItem("a", g.draw(st.text(alphabet="<>=!~&^0in", min_size=0, max_size=3).filter(
                lambda s: s not in OPS_ANY + OPS_INT)), 1)
            require(False, "unknown-instruction", "an instruction that does not exist was accepted")
        except APIException as e:
            require(code_of(e) == "INVALID_FILTER_INSTRUCTION", "unknown-instruction-code", code_of(e))
    g.nontrivial(0 < len(keep) < n)


class Reader(AbstractSpectrumReader):
    """appends what it is given, as a client's reader does"""

    def load_wave(self, r, obs_id=""):
        self.waves.append(r["w"], obs_id)

    def load_flux(self, r, obs_id=""):
        self.fluxes.append(r["f"], obs_id)

    def load_error(self, r, obs_id=""):
        self.errors.append(r["e"], obs_id)

    def load_lsf(self, r, obs_id=""):
        self.lsf_type = "gaussianConstantWidth"
        lsf = np.ndarray((1,), dtype=np.dtype([("width", "<f8")]))
        lsf["width"][0] = r["lsf"]
        self.lsf_data.append(lsf, obs_id)

    def load_photometry(self, r, obs_id=""):
        pass

    def load_others(self, r, obs_id=""):
        for c in r["others"]:
            if c not in self.others:
                self.others[c] = Container()
            self.others[c].append(r["others"][c], obs_id)


def to_air(vac):
    """Morton (2000): refractive index of air as a function of the wavelength in vacuum"""
    s2 = (1e4 / vac) ** 2
    return vac / (1 + 8.34254e-5 + 2.406147e-2 / (130 - s2) + 1.5998e-4 / (38.9 - s2))


def draw_obs(g, k, mode, near):
    n = g.i(0 if g.i(0, 9) == 0 else 1, 10)
    ks = sorted(g.draw(st.lists(st.integers(0, 30), min_size=n, max_size=n, unique=True)))
    w = np.array([3000 + 0.5 * x for x in ks], dtype=float)
    if near and n:
        w = w + g.draw(st.sampled_from([0., 1e-10, 2e-10, 4e-11]))
    if n and mode != "merge" and g.i(0, 3) == 0:
        w = w * g.pick([1.5, 2.0, 3.0])
    ids = 100 * k + np.arange(n) + 1
    q = np.array(g.draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), dtype=int)
    return dict(w=w, f=ids * 1.0, e=ids + 0.5, others={"q": q, "p": ids * 2.0}, lsf=g.pick([1.5, 3., 4.]))


@prop("P23", "reader", 6000, 60000)
def reader(g):
    CProcessFlowContext.GetInstance().reset()
    mode = g.pick(["", "merge", "full"])
    n_obs = 1 if mode == "" else g.i(1, 4)
    names = [""] if mode == "" else g.draw(st.lists(st.sampled_from(["", "a", "b", "red", "blue"]), min_size=n_obs, max_size=n_obs, unique=True))
    near = mode == "merge" and g.i(0, 4) == 0
    obs = {name: draw_obs(g, k, mode, near) for k, name in enumerate(names)}
    cols = {"waves": "wave", "fluxes": "float", "errors": "float", "q": "int", "p": "float"}
    specs = []
    for _ in range(g.i(0, 3)):
        s = draw_filter(g, cols)
        if s["key"] in ("fluxes", "errors", "p") and g.b():
            s["value"] = [g.i(1, 420) * 0.5] if s["instruction"] in ("in", "~in") else g.i(1, 420) * 0.5
        if s["key"] == "waves":
            k = g.i(0, 31)
            s["value"] = [3000 + 0.5 * k] if s["instruction"] in ("in", "~in") else 3000 + 0.5 * k
        specs.append(s)
    air = g.i(0, 2) == 0
    method = g.pick(["", "", "default", "morton2000"])
    lr = [3000 + g.i(0, 10), 3010 + g.i(0, 10)]
    params = {"version": 2, "lsf": {"lsfType": "fromSpectrumData"}, "airVacuumMethod": method, "spectrumModels": [],
              "multiObsMethod": mode, "lambdaRange": {nm: lr for nm in names} if mode == "full" else lr}
    if specs or g.b():      # columns also go by the names the parameters document
        public = {"waves": "Wave", "fluxes": "Flux", "errors": "Err"}
        params["filters"] = [dict(s, key=public.get(s["key"], s["key"])) if g.b() else s for s in specs]
    r = Reader("obs", Parameters(params, Checker=NoCheck), None, "src")
    if air:
        r.set_air()
    before = {nm: {k: np.array(v, copy=True) for k, v in o.items() if k in "wfe"} for nm, o in obs.items()}
    for nm in names:
        for load in (r.load_wave, r.load_flux, r.load_error, r.load_lsf, r.load_others):
            load(obs[nm], nm)
    keep = {}
    for nm, o in obs.items():
        c = {"waves": o["w"], "fluxes": o["f"], "errors": o["e"], "q": o["others"]["q"], "p": o["others"]["p"]}
        keep[nm] = [i for i in range(len(o["w"])) if all(row_ok(c[s["key"]][i].item(), s["instruction"], s["value"]) for s in specs)]
    empty = any(not k for k in keep.values())
    g.note("mode", mode, "names", names, "sizes", [len(o["w"]) for o in obs.values()], "kept", [len(k) for k in keep.values()],
           "filters", specs, "air", air, method)
    # what is expected in the spectra
    expected = {}
    refuse = None
    if mode == "merge":
        rows = [(o["w"][i], o["f"][i], o["e"][i]) for nm, o in obs.items() for i in keep[nm]]
        groups = {}
        for row in rows:
            groups.setdefault(row[0], []).append(row)
        final = []
        for wv in sorted(groups):
            final += [wv + 1e-10 * k for k in range(len(groups[wv]))]
        if len(set(final)) != len(final):
            refuse = "UNALLOWED_DUPLICATES"
        elif any(b <= a for a, b in zip(final, final[1:])):
            refuse = "UNSORTED_ARRAY"
        expected[""] = (np.array(final), rows)
    else:
        for nm, o in obs.items():
            expected[nm] = (o["w"][keep[nm]], [(o["w"][i], o["f"][i], o["e"][i]) for i in keep[nm]])
    if empty:
        refuse = "INVALID_SPECTRUM"
    try:
        r.init()
        ok = True
    except AmzException as e:
        ok = False
        require(refuse is not None, "refused", lambda: f"a spectrum that is fine was refused: {e}")
        require(code_of(e) == refuse, "refusal-code", lambda: f"{code_of(e)} expected {refuse}: {e}")
        g.label(f"refused {refuse}")
    if not ok:
        return
    require(refuse is None, "accepted", lambda: f"expected {refuse}, sizes kept {[len(k) for k in keep.values()]}")
    require(set(r._spectra if hasattr(r, "_spectra") else expected) == set(expected), "spectra-names", lambda: f"{set(r._spectra)}")
    for nm, (w, rows) in expected.items():
        gw, gf, ge = (np.array(x) for x in (r.get_wave(nm), r.get_flux(nm), r.get_error(nm)))
        require(len(gw) == len(gf) == len(ge) == len(w), "sample-count", lambda: f"{len(gw)} {len(gf)} {len(ge)} expected {len(w)}")
        if air:
            require(np.allclose(to_air(gw), w, rtol=1e-8, atol=0), "vacuum", lambda: f"air wavelengths {w[:3]} became {gw[:3]}")
            g.label("converted to vacuum")
        else:
            require(np.array_equal(gw, w), "wavelengths", lambda: f"{gw[:6]} expected {w[:6]}")
        require(bool(np.all(np.diff(gw) > 0)), "not-increasing", lambda: f"{gw}")
        require(sorted(gf) == sorted(x[1] for x in rows), "samples-lost", lambda: f"fluxes {sorted(gf)}")
        require(np.array_equal(gf + 0.5, ge), "flux-error-mixed", "the error of another sample")
        wave_of = {x[1]: x[0] for x in rows}
        back = np.array([wave_of[x] for x in gf])
        ref = np.sort(back)
        require(np.array_equal(back, ref), "flux-wave-mixed", lambda: f"flux of another wavelength: {back}")
        sp = r.get_spectrum(nm)
        require(sp.GetName() == "src", "name", sp.GetName())
        first = obs[names[0]]["lsf"]
        require(abs(sp.GetLSF().GetWidth(3005.0) - first) < 1e-12, "lsf", lambda: f"{sp.GetLSF().GetWidth(3005.0)} expected {first}")
    for nm, o in obs.items():
        others = r.get_filtered_others(nm)
        for c in ("q", "p"):
            require(np.array_equal(others[c].to_numpy(), o["others"][c][keep[nm]]), "others", lambda: f"column {c} of {nm!r}")
        for k in "wfe":
            require(np.array_equal(o[k], before[nm][k]), "loaded-data-modified", "the arrays given to the reader were changed")
    require(set(r.get_observation_ids()) == set(names), "observation-ids", list(r.get_observation_ids()))
    g.nontrivial(sum(map(len, keep.values())) < sum(len(o["w"]) for o in obs.values()) or len(names) > 1)


@prop("P23", "refusals", 2000, 15000)
def refusals(g):
    CProcessFlowContext.GetInstance().reset()
    kind = g.pick(["missing-array", "other-name", "length", "named-single", "not-initialised", "filter-key", "fine"])
    mode = "" if kind == "named-single" else g.pick(["merge", "full"])
    names = [g.pick(["x", "y"])] if kind == "named-single" else g.draw(st.lists(st.sampled_from(["a", "b", "c"]), min_size=1, max_size=3, unique=True))
    obs = {}
    for k, nm in enumerate(names):
        n = g.i(2, 8)
        o = dict(w=np.array([3000. + 100 * k + i for i in range(n)]), f=np.arange(n) * 1.0, e=np.arange(n) + 1.0,
                 others={"q": np.arange(n)}, lsf=3.)
        obs[nm] = o
    lr = [3000, 3005]
    params = {"version": 2, "lsf": {"lsfType": "fromSpectrumData"}, "airVacuumMethod": "", "spectrumModels": [],
              "multiObsMethod": mode, "lambdaRange": {nm: lr for nm in names} if mode == "full" else lr}
    if kind == "filter-key":
        params["filters"] = [{"key": "nope", "instruction": g.pick(OPS_ANY), "value": 1}]
    r = Reader("obs", Parameters(params, Checker=NoCheck), None, "src")
    victim, part = g.pick(names), g.pick(["w", "f", "e", "q"])
    loads = {"w": r.load_wave, "f": r.load_flux, "e": r.load_error, "q": r.load_others}
    for nm in names:
        for p, load in loads.items():
            if nm == victim and p == part:
                if kind == "missing-array":
                    continue
                if kind == "other-name":
                    load(obs[nm], "elsewhere")
                    continue
                if kind == "length":
                    o = dict(obs[nm])
                    if p == "q":
                        o["others"] = {"q": o["others"]["q"][:-1]}
                    else:
                        o[p] = o[p][:-1]
                    load(o, nm)
                    continue
            load(obs[nm], nm)
        r.load_lsf(obs[nm], nm)
    g.note(kind, "mode", mode, "names", names, "victim", victim, part)
    if kind == "missing-array" and part == "q" and len(names) == 1:
        kind = "fine"         # no column at all is not an inconsistency
    if kind == "not-initialised":
        for get in (r.get_wave, r.get_flux, r.get_error, r.get_spectrum):
            try:
                get(names[0])
                require(False, "not-initialised", "a spectrum was given before init")
            except APIException as e:
                require(code_of(e) == "SPECTRUM_NOT_LOADED", "not-initialised-code", code_of(e))
        g.nontrivial()
        return
    try:
        r.init()
        require(kind == "fine", "accepted", lambda: f"accepted: {kind} {part}")
    except AmzException as e:
        want = {"missing-array": "INVALID_SPECTRUM", "other-name": "INVALID_SPECTRUM", "named-single": "INVALID_NAME",
                "filter-key": "INVALID_FILTER_KEY", "length": code_of(e)}.get(kind)
        require(kind != "fine", "refused", str(e))
        require(code_of(e) == want, "refusal-code", lambda: f"{kind}: {code_of(e)} expected {want}")
    except ValueError:
        require(kind == "length", "refusal-type", f"{kind}: a bare ValueError")
    g.nontrivial(kind != "fine")


@prop("P23", "ascii-reader", 3000, 20000)
def ascii_reader(g):
    """the supplied reader: several observations loaded one by one with their names"""
    CProcessFlowContext.GetInstance().reset()
    mode = g.pick(["", "merge", "full"])
    names = [""] if mode == "" else g.draw(st.lists(st.sampled_from(["a", "b", "c"]), min_size=1, max_size=3, unique=True))
    frames = {}
    for k, nm in enumerate(names):
        n = g.i(1, 8)
        ids = 100. * (k + 1) + np.arange(n)
        frames[nm] = pd.DataFrame({"wave": 3000. + 0.25 * k + np.arange(n), "flux": ids, "err": ids + 0.5, "mask": np.arange(n) % 3, "snr": ids / 7})
    lr = [3000, 3005]
    extra = g.pick([None, ["mask"], ["mask", "snr"]])
    params = {"version": 2, "lsf": {"lsfType": "gaussianConstantWidth", "width": 3.0}, "airVacuumMethod": "", "spectrumModels": [],
              "multiObsMethod": mode, "lambdaRange": {nm: lr for nm in names} if mode == "full" else lr}
    thr = None
    if extra:
        params["additionalCols"] = extra
        if g.b():
            thr = g.i(0, 2)
            params["filters"] = [{"key": "mask", "instruction": "<=", "value": thr}]
    r = ASCIISpectrumReader("obs", Parameters(params, Checker=NoCheck), None, "src")
    if mode == "" and g.b():
        r.load_all(frames[""])
    else:
        for nm in names:
            r.load_wave(frames[nm], nm)
            r.load_flux(frames[nm], nm)
            r.load_error(frames[nm], nm)
            r.load_others(frames[nm], nm)
    g.note("mode", mode, "names", names, "columns", extra, "threshold", thr, "sizes", [len(f) for f in frames.values()])
    r.init()
    kept = {nm: f if thr is None else f[f["mask"] <= thr] for nm, f in frames.items()}
    if mode == "merge":
        kept_all = pd.concat(kept.values()).sort_values("wave")
        want = {"": kept_all}
    else:
        want = kept
    for nm, f in want.items():
        require(np.array_equal(r.get_wave(nm), f["wave"]), "wavelengths", lambda: f"{np.array(r.get_wave(nm))} expected {list(f['wave'])}")
        require(np.array_equal(r.get_flux(nm), f["flux"]), "fluxes", lambda: f"{np.array(r.get_flux(nm))} expected {list(f['flux'])}")
        require(np.array_equal(r.get_error(nm), f["err"]), "errors", lambda: f"{np.array(r.get_error(nm))}")
    for nm, f in kept.items():
        others = r.get_filtered_others(nm)
        require(sorted(others.columns) == sorted(extra or []), "other-columns", lambda: f"{list(others.columns)}")
        for c in extra or []:
            require(np.array_equal(others[c].to_numpy(), f[c].to_numpy()), "others", lambda: f"column {c} of {nm!r}")
    g.nontrivial(len(names) > 1 or thr is not None)
