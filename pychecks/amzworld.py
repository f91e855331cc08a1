"""A small complete pipeline: calibration files, parameters and sources for ProcessFlow.

Every run is done in a forked child, so that no state of the library survives from one case to the next.
"""
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np
import pandas as pd

from engine import Failure, require

C_KMS = 299792.458
LINES = [  # rest wavelength, name, type, force, amplitude group, nominal amplitude, velocity group
    (3727.09, "[OII]3726", "E", "S", "O2", 1.0, "Em1"),
    (3729.88, "[OII]3729", "E", "S", "O2", 1.3, "Em1"),
    (4341.58, "Hgamma", "E", "W", "-1", 1.0, "Em1"),
    (4862.72, "Hbeta", "E", "S", "-1", 1.0, "Em1"),
    (4960.29, "[OIII](doublet-1/3)", "E", "W", "O3", 1.0, "Em1"),
    (5008.24, "[OIII](doublet-1)", "E", "S", "O3", 3.0, "Em1"),
    (6564.61, "Halpha", "E", "S", "-1", 1.0, "Em1"),
    (3934.73, "CaII_K", "A", "S", "-1", 1.0, "Abs1"),
    (5176.71, "MgI5175", "A", "S", "-1", 1.0, "Abs1"),
    (1215.67, "LyAE", "E", "S", "-1", 1.0, "Em1"),
    (1549.48, "CIV1550", "E", "S", "-1", 1.0, "Em1"),
    (1908.73, "[CIII]1907", "E", "W", "-1", 1.0, "Em1"),
]
FEW = {"one": ["Halpha"], "two": ["Halpha", "MgI5175"]}  # catalogues of few lines


def write_calibration(root):
    def p(*a):
        path = os.path.join(root, *a)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        return path

    lam = np.arange(800., 12000., 25.)
    with open(p("ism", "SB_calzetti.dl1.txt"), "w") as f:
        f.write("# lambda flux\n")
        for l in lam:
            f.write(f"{l:.2f} {2.0 + 4.0 * (2000. / l):.10f}\n")
    lam = np.arange(1050., 1216., 0.05)
    for zi, zb in enumerate(("2.0", "2.5", "3.0")):
        with open(p("igm", "IGM_variation_curves_meiksin_v3.1", f"Meiksin_Var_curves_{zb}.txt"), "w") as f:
            cols = [np.exp(-0.25 * (i + 1) * (1 + zi) * (1.1 + np.sin(lam / 9. + i)) * 0.3) for i in range(3)]
            f.write("\n".join(f"{l:.2f} " + " ".join(f"{c[k]:.8f}" for c in cols) for k, l in enumerate(lam)) + "\n")
    lam = np.arange(1000., 11000., 10.)
    shape = {"galaxy": [lambda l: 1. + 0.4 * np.tanh((l - 4000.) / 150.) + 0.05 * np.sin(l / 90.),
                        lambda l: (l / 4000.) ** -1.2 + 0.06 * np.sin(l / 70.) + 0.15 * np.exp(-((l - 4300.) / 60.) ** 2)],
             "star": [lambda l: 1.5 - 0.6 * np.exp(-((l - 4862.) / 40.) ** 2) - 0.5 * np.exp(-((l - 6564.) / 40.) ** 2),
                      lambda l: (l / 5000.) ** 2 * (1 - 0.4 * np.exp(-((l - 5180.) / 70.) ** 2))],
             "qso": [lambda l: (l / 3000.) ** -1.5 * (1 + 1.5 * np.exp(-((l - 2800.) / 60.) ** 2)
                                                      + np.exp(-((l - 4862.) / 70.) ** 2))]}
    for model, fs in shape.items():
        for k, f in enumerate(fs):
            np.savetxt(p("templates", model, model, f"{model}_{k}.dat"), np.c_[lam, f(lam)], fmt="%.8g")
    cols = ["WaveLength", "Name", "Type", "Force", "Profile", "AmplitudeGroupName", "AmplitudeGroupValue",
            "DispersionVelocityGroupName", "WaveLengthOffset", "EnableFitWaveLengthOffset"]
    with open(p("linecatalogs", "lines.tsv"), "w") as f:
        f.write("\t".join(cols) + "\n")
        for w, n, t, fo, ag, av, vg in LINES:
            f.write("\t".join(map(str, (w, n, t, fo, "ASYM" if n == "LyAE" else "SYM", ag, av, vg, 0.0, "FALSE"))) + "\n")
    for k, names in FEW.items():
        with open(p("linecatalogs", f"{k}.tsv"), "w") as f:
            f.write("\t".join(cols) + "\n")
            for w, n, t, fo, ag, av, vg in LINES:
                if n in names:
                    f.write("\t".join(map(str, (w, n, t, fo, "SYM", ag, av, vg, 0.0, "FALSE"))) + "\n")
    for k, (r, vel, sub) in enumerate((((1., 1.3, .5, 1., 1., 3., 2.9, .2, .1, 2., 1., .4), 180., "SF"),
                                       ((3., 4., .1, .3, .3, 1., 1., .4, .3, 1., .3, 1.), 320., "P\u00e9"[:1]))):
        with open(p("ratios", f"tpl_{k}_catalog.tsv"), "w") as f:
            f.write("WaveLength\tName\tType\tNominalAmplitude\n")
            for (w, n, t, *_), a in zip(LINES, r):
                f.write(f"{w}\t{n}\t{t}\t{a}\n")
        json.dump({"asym_params": {"profile": "ASYM" if k else "ASYMFIXED", "sigma": 1. + k, "alpha": 4.5, "delta": 0.},
                   "velocities": {"em_vel": vel, "abs_vel": 300.}, "sub_type": sub},
                  open(p("ratios", f"tpl_{k}_catalog.json"), "w"))
    for k, (name, lo, hi) in enumerate((("B1", 4000., 5500.), ("B2", 5000., 7500.))):
        x = np.linspace(lo, hi, 30)
        with open(p("photo", f"{name}.pb"), "w") as f:
            f.write(f"lambda,{name}\n")
            for a, b in zip(x, np.exp(-((x - (lo + hi) / 2) / (hi - lo) * 4) ** 2)):
                f.write(f"{a:.3f},{b:.8f}\n")


_calib = None


def calib_dir():
    """one directory per run of the check, kept beside the built package (never in the repository)"""
    global _calib
    if _calib is None:
        import pylibamazed
        base = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(pylibamazed.__file__))))
        src = open(os.path.abspath(__file__), "rb").read()
        import hashlib
        final = os.path.join(base, "calib_" + hashlib.sha1(src).hexdigest()[:12])
        if not os.path.isdir(final):
            tmp = tempfile.mkdtemp(prefix="calib_tmp_", dir=base)
            write_calibration(tmp)
            try:
                os.rename(tmp, final)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        _calib = final
    return _calib


# ---------------------------------------------------------------- parameters

def few_lines(g, lm):
    if g.chance(20):
        lm["lineCatalog"] = f"linecatalogs/{g.pick(list(FEW))}.tsv"
        if g.b():
            lm["lineForceFilter"] = "S"


def line_model(g, meas=False):
    lm = {"lineCatalog": "linecatalogs/lines.tsv", "lineTypeFilter": g.pick(["no", "E"]), "lineForceFilter": "no",
          "fittingMethod": g.pick(["individual", "hybrid", "svd"]), "lineWidthType": "combined", "velocityEmission": 200.,
          "velocityAbsorption": 300., "velocityFit": False, "ampOffsetFit": False, "lbdaOffsetFit": False,
          "improveBalmerFit": False, "nSigmaSupport": 8., "lya": {"profile": "asym", "asymProfile": {
              "switchFixedToFit": False, "switchFitToFixed": False, "asymFitMin": 0, "asymFitMax": 4, "asymFitStep": 1,
              "widthFitMin": 1, "widthFitMax": 4, "widthFitStep": 1, "deltaFitMin": 0, "deltaFitMax": 0, "deltaStepMax": 1}}}
    if meas:
        lm.update(continuumComponent="noContinuum", lineRatioType="rules", rules="no",
                  fittingMethod=g.pick(["hybrid", "individual", "svd"]), polynomialDegree=2)
        few_lines(g, lm)
        return lm
    ratio = g.pick(["tplRatio", "rules"])
    n = g.i(1, 3)
    cont = g.pick(["tplFit", "noContinuum", "fromSpectrum"])
    lm.update(pdfCombination=g.pick(["marg", "bestChi2"]), lineRatioType=ratio, rules="all", continuumComponent=cont,
              continuumReestimation=g.pick(["no", "onlyExtrema"]) if cont == "fromSpectrum" else "no",
              extremaCountB=0, hAlphaPrior=-1,
              tplRatioCatalog="ratios", tplRatioIsmFit=g.b(), useLogLambdaSampling=False, skipSecondPass=g.chance(25),
              extremaCount=n, extremaCutProbaThreshold=-1, pdf={"margAmpCorr": False, "bestZOption": "maxIntProba"},
              firstPass={"fittingMethod": lm["fittingMethod"], "largeGridStepRatio": g.pick([1, 3]), "tplRatioIsmFit": False,
                         "multipleContinuumFitDisable": True, "extremaCount": n + g.i(0, 1)},
              secondPass={"halfWindowSize": 0.002, "continuumFit": "reFitFirstPass"}, secondPassLcFittingMethod="-1",
              strongLinesPrior=-1, nOfZPriorStrength=-1,
              tplRatio={"priors": {"betaA": 1, "betaTE": 1, "betaZ": 1, "catalogDirPath": ""}}, enablePhotometry=False,
              continuumFit={"negativeThreshold": -5., "nullThreshold": 3, "badChi2Threshold": 100, "fftProcessing": cont == "tplFit" and g.chance(25),
                            "ismFit": g.b(), "igmFit": False, "count": g.i(1, 2), "ignoreLineSupport": g.b(),
                            "priors": {"betaA": 1, "betaTE": 1, "betaZ": 1, "catalogDirPath": ""}})
    if ratio == "rules":
        few_lines(g, lm)
    lm["velocityFit"] = g.chance(30)
    lm.update(emVelocityFitMin=100, emVelocityFitMax=300, emVelocityFitStep=100, absVelocityFitMin=200,
              absVelocityFitMax=400, absVelocityFitStep=100)
    return lm


def solver(g, model, method):
    n = g.i(1, 3)
    if method == "templateFittingSolve":
        fft = g.chance(25)  # with fft, only the raw component can be fitted (see DESIGN.md, P25)
        return {"extremaCount": n, "overlapThreshold": 1., "spectrum": {"component": "raw" if fft else g.pick(["raw", "raw", "noContinuum"])},
                "fftProcessing": fft, "interpolation": g.pick(["lin", "preComputedFineGrid"]), "ismFit": g.b(),
                "igmFit": model == "qso" and g.b(), "pdfCombination": g.pick(["marg", "bestChi2"]), "enablePhotometry": False}
    if method == "tplCombinationSolve":
        return {"extremaCount": n, "overlapThreshold": 1., "spectrum": {"component": "raw"}, "interpolation": "lin",
                "ismFit": g.b(), "igmFit": model == "qso" and g.b(), "pdfCombination": g.pick(["marg", "bestChi2"])}
    return {"lineModel": line_model(g)}


def parameters(g, models=None):
    models = models or g.pick([["galaxy"], ["qso", "galaxy"], ["galaxy", "qso"], ["galaxy", "star"], ["star", "galaxy"], ["galaxy", "star", "qso"], ["star"]])
    med = {"method": g.pick(["irregularSamplingMedian", "zero"]), "medianKernelWidth": 300, "medianEvenReflection": True}
    P = {"version": 2, "multiObsMethod": "", "lambdaRange": [4200., 7800.], "smoothWidth": 0., "templateCatalog": {"continuumRemoval": dict(med)},
         "ebmv": {"start": 0., "step": 0.2, "count": 3}, "continuumRemoval": dict(med), "airVacuumMethod": "default",
         "lsf": {"lsfType": "gaussianConstantResolution", "resolution": 900.}, "extremaRedshiftSeparation": 0.01,
         "spectrumModels": models, "autoCorrectInput": g.b(),
         "photometryTransmissionDir": "photo", "photometryBand": ["B1", "B2"]}
    if g.chance(40):
        P["lsf"] = {"lsfType": "fromSpectrumData", "of": g.pick(["gaussianConstantResolution", "gaussianConstantWidth", "gaussianVariableWidth"])}
    for m in models:
        zr = {"galaxy": [0.1, 0.35], "qso": [2.4, 2.8], "star": [-0.002, 0.002]}[m]
        method = g.pick({"galaxy": ["templateFittingSolve", "lineModelSolve", "lineModelSolve", "tplCombinationSolve"],
                         "qso": ["templateFittingSolve", "lineModelSolve", "tplCombinationSolve"],
                         "star": ["templateFittingSolve", "tplCombinationSolve"]}[m])
        s = {"redshiftRange": zr, "redshiftStep": {"galaxy": 0.004, "qso": 0.005, "star": 0.0002}[m],
             "redshiftSampling": "lin" if m == "star" else g.pick(["log", "lin"]), "templateDir": f"templates/{m}",
             "stages": ["redshiftSolver"], "redshiftSolver": {"method": method, method: solver(g, m, method)}}
        o = s["redshiftSolver"][method]
        if o.get("fftProcessing") or o.get("lineModel", {}).get("continuumFit", {}).get("fftProcessing"):
            s["redshiftSampling"] = "log"
        if method == "lineModelSolve" and g.b():
            s["stages"] = ["redshiftSolver", "lineMeasSolver"]
            s["lineMeasDzHalf"] = 0.001
            s["lineMeasRedshiftStep"] = 0.0005
            s["lineMeasSolver"] = {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": line_model(g, True)}}
        P[m] = s
    kind = g.pick(["plain"] * 4 + ["photometry", "merge", "full"])
    if kind == "photometry":
        with_photometry(g, P)
    elif kind != "plain":
        P["multiObsMethod"] = kind
        if kind == "full":
            P["lambdaRange"] = {"blue": [4200., 6200.], "red": [5800., 7800.]}
    return P


def with_photometry(g, P):
    """fluxes in photometric bands fitted together with the spectrum, where the method knows how to"""
    for m in P["spectrumModels"]:
        o = P[m]["redshiftSolver"]
        meth, o = o["method"], o[o["method"]]
        if meth == "templateFittingSolve" and not o["fftProcessing"] and o["spectrum"]["component"] == "raw":
            o.update(enablePhotometry=True, photometry={"weight": g.pick([1., 0.3])})
        elif meth == "lineModelSolve" and o["lineModel"]["continuumComponent"] == "tplFit" and not o["lineModel"]["continuumFit"]["fftProcessing"]:
            o["lineModel"].update(enablePhotometry=True, photometry={"weight": g.pick([1., 0.3])})


def options(P):
    """what a run with these parameters goes through beside the methods"""
    r = [P["multiObsMethod"]] if P["multiObsMethod"] else []
    text = json.dumps(P)
    return r + [k for k, x in (("photometry", '"enablePhotometry": true'), ("fft", '"fftProcessing": true'), ("igm", '"igmFit": true'),
                               ("few lines", "catalogs/one"), ("few lines", "catalogs/two"), ("velocity", '"velocityFit": true')) if x in text]


def measured_only(g, P, n):
    """the first model measured at redshifts given in a table (one line per source, the last may be missing); gives the table"""
    m = "galaxy"
    P[m] = dict(P[m], stages=["lineMeasSolver"], lineMeasDzHalf=0.001, lineMeasRedshiftStep=0.0005,
                lineMeasSolver={"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": line_model(g, True)}})
    P[m].pop("redshiftSolver", None)
    for other in P["spectrumModels"]:  # both kinds of measurements are refused together
        if other != m and "lineMeasSolver" in P[other]["stages"]:
            P[other]["stages"] = ["redshiftSolver"]
    rows = ["ProcessingID\tZ\tVA\tVE"]
    for k in range(n - g.chance(20)):
        rows.append(f"src{k}\t{0.12 + 0.05 * g.i(0, 4)}\t{g.pick([200., 350.])}\t{g.pick([150., 300.])}")
    return "\n".join(rows) + "\n"


def with_table(table, fn):
    """fn(config), with a file of this table as line measurement catalogue of the galaxies"""
    if table is None:
        return fn(None)
    d = tempfile.mkdtemp(prefix="calib_meas_", dir=os.path.dirname(calib_dir()))
    try:
        with open(os.path.join(d, "meas.tsv"), "w") as f:
            f.write(table)
        return fn({"linemeascatalog": {"galaxy": os.path.join(d, "meas.tsv")},
                   "linemeas_catalog_columns": {"galaxy": {"Redshift": "Z", "VelocityAbsorption": "VA", "VelocityEmission": "VE"}}})
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- sources

def focus_on_calibration(g, P):
    """parameters with which the calibration data prepared for a source depend on its samples or line spread function"""
    kind = g.pick(["lsf", "fft", "both"])
    if kind != "fft":
        P["lsf"] = {"lsfType": "fromSpectrumData", "of": g.pick(["gaussianConstantResolution", "gaussianConstantWidth", "gaussianVariableWidth"])}
    for m in P["spectrumModels"]:
        o = P[m]["redshiftSolver"]
        o = o[o["method"]]
        if "lineModel" in o:
            o = o["lineModel"]
            o.update(continuumComponent="tplFit", continuumReestimation="no")
            o["continuumFit"]["ignoreLineSupport"] = False
            if m == "qso":
                o["continuumFit"].update(igmFit=True, count=1)
            o = o["continuumFit"]
        elif m == "qso":
            o["igmFit"] = True
        if kind != "lsf" and "fftProcessing" in o and m != "star":
            o["fftProcessing"] = True
            if "spectrum" in o:
                o["spectrum"]["component"] = "raw"
            P[m]["redshiftSampling"] = "log"
    return kind


def source(g, k):
    """a spectrum close to one of the models, or a bad one"""
    r = g.rng()
    log = g.b()
    n = g.i(310, 360) if log else g.i(120, 260)
    lo = g.pick([4200., 4250., 4000.])
    hi = g.pick([7800., 7700., 8000.])
    if not log:
        w = np.linspace(lo, hi, n)
    else:
        w = np.exp(np.linspace(np.log(lo), np.log(hi), n))
    kind = g.pick(["galaxy", "galaxy", "star", "flat", "noise"])
    z = r.uniform(0.12, 0.33)
    sig = 0.02 * g.pick([1., 5.])
    y = np.zeros(n)
    if kind == "galaxy":
        y = 1. + 0.4 * np.tanh((w / (1 + z) - 4000.) / 150.)
        for wl, *_, a, _v in LINES[:7]:
            s = wl * (1 + z) * (200. / C_KMS + 1. / 900. / 2.35)
            y = y + a * 0.6 * np.exp(-0.5 * ((w - wl * (1 + z)) / s) ** 2)
    elif kind == "star":
        y = 1.5 - 0.6 * np.exp(-((w - 4862.) / 40.) ** 2) - 0.5 * np.exp(-((w - 6564.) / 40.) ** 2)
    elif kind == "flat":
        y = np.ones(n)
    e = np.full(n, sig) * (1. + 0.3 * r.random(n))
    y = y + e * r.normal(size=n)
    s = {"w": w, "f": y * 1e-18, "e": e * 1e-18, "name": f"src{k}", "kind": kind, "resolution": g.pick([900., 915., 885., 930., 600., 1400.])}
    # (fluxes and errors of the two photometric bands; a few sources have none, or not all)
    inside = [float(np.mean(y[(w > a) & (w < b)])) for a, b in ((4200., 5400.), (5500., 7000.))]
    s["phot"] = {b: (v * 1e-18, sig * 1e-18 * g.pick([0.5, 3.])) for b, v in zip(("B1", "B2"), inside)}
    if g.chance(6):
        s["phot"] = {k: v for k, v in s["phot"].items() if k == "B2" and g.b()}
    return s


FAULTS = ["nan flux", "null error", "short", "negative error", "outside", "zero flux"]


def spoil(g, s, fault):
    s = dict(s, kind=s["kind"] + "/" + fault)
    if fault == "nan flux":
        s["f"] = s["f"].copy()
        s["f"][len(s["f"]) // 2] = np.nan
    elif fault == "null error":
        s["e"] = s["e"].copy()
        s["e"][len(s["e"]) // 3] = 0.
    elif fault == "negative error":
        s["e"] = -s["e"]
    elif fault == "short":
        k = g.i(1, 4)
        for c in "wfe":
            s[c] = s[c][:k]
    elif fault == "outside":
        s["w"] = s["w"] + 9000.
    elif fault == "zero flux":
        s["f"] = np.zeros_like(s["f"])
    return s


# ---------------------------------------------------------------- running

class NoCheck:
    def __init__(self, parameters):
        pass

    def json_schema_check(self, version):
        pass

    def custom_check(self):
        pass


def make_flow(P, config=None):
    from pylibamazed.Parameters import Parameters
    from pylibamazed.ProcessFlow import ProcessFlow
    param = Parameters(json.loads(json.dumps(P)), Checker=NoCheck)
    cfg = {"calibration_dir": calib_dir(), "extended_results": True, "linemeascatalog": {}, "linemeas_catalog_columns": {}}
    cfg.update(config or {})
    return ProcessFlow(cfg, param), param


def reader_class(of):
    """a reader that finds the line spread function in its source"""
    from pylibamazed.ASCIISpectrumReader import ASCIISpectrumReader

    class Reader(ASCIISpectrumReader):
        def load_lsf(self, spectrum, obs_id=""):
            if of is None:
                return
            wave = np.linspace(1000., 12000., 60)
            data = {"gaussianConstantResolution": self.resolution, "gaussianConstantWidth": 6000. / self.resolution / 2.35,
                    "gaussianVariableWidth": wave / self.resolution / 2.35}[of]
            self.lsf_type = of
            width = np.full(60, data) if np.isscalar(data) else data
            self.lsf_data.append(np.rec.fromarrays([wave, width], names="wave,width"), obs_id)
    return Reader


def run_source(flow, param, s):
    lsf = param.parameters["lsf"]
    rd = reader_class(lsf.get("of"))(observation_id=s["name"], parameters=param, calibration_library=flow.calibration_library,
                                     source_id=s["name"])
    rd.resolution = s["resolution"]
    for obs, (lo, hi, shift) in OBSERVATIONS[param.parameters["multiObsMethod"]].items():
        k = (s["w"] + shift >= lo) & (s["w"] + shift <= hi) if obs else np.full(len(s["w"]), True)
        t = pd.DataFrame({"wave": s["w"][k] + shift, "flux": s["f"][k], "err": s["e"][k]})
        for load in (rd.load_wave, rd.load_flux, rd.load_error, rd.load_lsf, rd.load_others):
            load(t, obs)
    if s.get("phot"):
        rd.load_photometry(pd.DataFrame([(b, f, e) for b, (f, e) in s["phot"].items()], columns=["Name", "Flux", "Error"]))
    return flow.run(rd)


# observations made of a source: wavelengths, and shift that keeps their samples apart where they overlap
OBSERVATIONS = {"": {"": (0., 1e6, 0.)}, "merge": {"blue": (0., 6200., 0.), "red": (5800., 1e6, 0.4)},
                "full": {"blue": (0., 6200., 0.), "red": (5800., 1e6, 0.4)}}


def in_child(fn, timeout=120):
    """value of fn() computed in a forked process; ('died', status) when it ends otherwise"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("raised", type(e).__name__ + ": " + str(e)[:500] + " @ " + " | ".join(
                    x.strip() for x in traceback.format_exc().splitlines()[-6:]), (e.key, e.msg) if isinstance(e, Failure) else None)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    t0 = time.time()
    import select
    with os.fdopen(r, "rb") as f:
        while True:
            ready, _, _ = select.select([f], [], [], max(0.1, timeout - (time.time() - t0)))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ("died", "timeout")
            b = os.read(f.fileno(), 1 << 20)
            if not b:
                break
            data += b
    _, st = os.waitpid(pid, 0)
    if not data:
        return ("died", st)
    out = pickle.loads(data)
    if out[0] == "raised" and out[2]:
        raise Failure(*out[2])  # a check that does not hold in the child
    return out[:2]


def plain(v):
    """values of an output as plain comparable objects"""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return np.array(v)
    return v


def snapshot(out):
    return {"root": plain(out.root_results), "objects": plain(out.object_results), "errors": plain(out.errors)}


def differences(a, b, path="", tol=0.):
    """paths where two snapshots differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        r = [f"{path}/{k} only in one" for k in a.keys() ^ b.keys()]
        for k in a.keys() & b.keys():
            r += differences(a[k], b[k], f"{path}/{k}", tol)
        return r
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return [f"{path} length {len(a)} and {len(b)}"]
        r = []
        for i, (x, y) in enumerate(zip(a, b)):
            r += differences(x, y, f"{path}[{i}]", tol)
        return r
    if type(a) is not type(b):
        return [f"{path} type {type(a).__name__} {type(b).__name__}"]
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return [f"{path} shape {a.shape}/{a.dtype} {b.shape}/{b.dtype}"]
        if a.dtype.kind == "f":
            ok = np.allclose(a, b, rtol=tol, atol=0, equal_nan=True) if tol else np.array_equal(a, b, equal_nan=True)
        else:
            ok = np.array_equal(a, b)
        if not ok:
            k = int(np.flatnonzero(~((a == b) | ((a != a) & (b != b))))[0])
            return [f"{path}[{k}] {a[k]} {b[k]}"]
        return []
    if isinstance(a, float):
        if a == b or (a != a and b != b) or (tol and abs(a - b) <= tol * max(abs(a), abs(b))):
            return []
        return [f"{path} {a!r} {b!r}"]
    return [] if a == b else [f"{path} {a!r} {b!r}"]
