"""P22: parameter files are checked, converted and completed without losing information.

A configuration is drawn in the current ("treed") form: every section its options call for is present, nothing
else is. It is written as a version-1 or version-2 file by tables of this module, or perturbed by one section.
The oracle for the checks is the table RULES below, written from the documentation of the parameters.
"""
import copy
import json

from hypothesis import strategies as st

from engine import prop, require

from pylibamazed.Parameters import Parameters
from pylibamazed.ParametersChecker import ParametersChecker
from pylibamazed.ParametersConverter import ParametersConverterSelector
from pylibamazed.redshift import AmzException, CFlagWarning, WarningCode

zflag = CFlagWarning.GetInstance()


def flags():
    x = zflag.getBitMask()
    unused = bool(getattr(x, "value", x) & WarningCode.UNUSED_PARAMETER.value)
    zflag.resetFlag()
    return unused


class NoCheck(ParametersChecker):
    def json_schema_check(self, version):
        pass

    def custom_check(self):
        pass


def code_of(e):
    try:
        return e.getErrorCode().name
    except Exception:
        return type(e).__name__


# ---------------------------------------------------------------- generator of complete configurations

class Leaves:
    """values that are all different, so that an exchanged value shows"""

    def __init__(self, g):
        self.g = g
        self.n = g.i(0, 50)
        self.odd = g.i(0, 5) == 0

    def num(self):
        self.n += 1
        return self.n + 0.25

    def small(self):
        self.n += 1
        return self.n * 1e-5 + 1e-7 / 3

    def int(self):
        self.n += 1
        return self.n

    def str(self):
        self.n += 1
        if self.odd:
            return self.g.pick(["a b/", "é/", "x\\y", "tab\t", "q'", "{}", "#1,", "\u2028"]) + str(self.n)
        return f"dir{self.n}/name.fits"


COMPONENTS = ["raw", "noContinuum", "continuum", "all"]
RULE_NAMES = ["all", "no", "strongWeak", "balmerSingle", "ratioRange"]


def priors(v):
    return {"betaA": v.num(), "betaTE": v.num(), "betaZ": v.num(), "catalogDirPath": v.str()}


def asym(g, v):
    d = {k: v.num() for k in ("asymFitMin", "asymFitMax", "asymFitStep", "widthFitMin", "widthFitMax", "widthFitStep",
                              "deltaFitMin", "deltaFitMax", "deltaStepMax")}
    d["switchFixedToFit"] = g.b()
    d["switchFitToFixed"] = g.b()
    return d


def template_fitting(g, v):
    fft = g.b()
    d = {"fftProcessing": fft, "overlapThreshold": v.num(), "spectrum": {"component": g.pick(["raw"] + COMPONENTS)},
         "interpolation": g.pick(["lin", "preComputedFineGrid"]), "extremaCount": v.int(), "igmFit": g.b(), "ismFit": g.b(),
         "pdfCombination": g.pick(["marg", "bestChi2"]), "enablePhotometry": not fft and g.b()}
    return d


def template_combination(g, v):
    return {"overlapThreshold": v.num(), "spectrum": {"component": g.pick(["raw"] + COMPONENTS)},
            "interpolation": g.pick(["lin", "preComputedFineGrid"]), "extremaCount": v.int(), "igmFit": g.b(),
            "ismFit": g.b(), "pdfCombination": g.pick(["marg", "bestChi2"])}


def line_model(g, v):
    ratio = g.pick(["rules", "tplRatio", "tplCorr"])
    count = g.i(1, 9)
    lm = {"improveBalmerFit": ratio == "rules" and g.b(), "lineCatalog": v.str(), "lineTypeFilter": g.pick(["E", "A", "no"]),
          "lineForceFilter": g.pick(["W", "S", "no"]), "fittingMethod": g.pick(["individual", "svd", "hybrid", "lbfgsb"]),
          "lineWidthType": g.pick(["combined", "instrumentDriven", "velocityDriven"]), "velocityEmission": v.num(),
          "velocityAbsorption": v.num(), "velocityFit": g.b(), "lbdaOffsetFit": g.b(), "ampOffsetFit": g.b(),
          "skipSecondPass": g.b(), "extremaCount": count, "extremaCutProbaThreshold": v.num(), "lineRatioType": ratio,
          "continuumComponent": g.pick(["fromSpectrum", "tplFit", "tplFitAuto", "noContinuum"]), "strongLinesPrior": v.num(),
          "nOfZPriorStrength": v.num(), "pdfCombination": g.pick(["marg", "bestChi2"]), "nSigmaSupport": v.num(),
          "hAlphaPrior": v.num(), "extremaCountB": v.int(), "enablePhotometry": g.b(), "lya": {"profile": g.pick(["asym", "igm"])},
          "firstPass": {"fittingMethod": g.pick(["hybrid", "individual", "svd"]), "largeGridStepRatio": v.int(),
                        "multipleContinuumFitDisable": g.b(), "extremaCount": count + g.i(0, 2)},
          "secondPassLcFittingMethod": g.pick(["-1", "svdlc", "svdlcp2"]), "pdf": {"margAmpCorr": g.b()}, "tplRatio": {"priors": priors(v)}}
    if lm["velocityFit"]:
        for k in ("em", "abs"):
            for m in ("Min", "Max", "Step"):
                lm[f"{k}VelocityFit{m}"] = v.num()
    if lm["enablePhotometry"]:
        lm["photometry"] = {"weight": v.num()}
    return {"lineModel": lm}


def line_meas(g, v):
    method = g.pick(["lbfgsb", "lbfgsb", "individual", "svd", "hybrid"])
    return {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": {
        "continuumComponent": g.pick(["fromSpectrum", "noContinuum"]), "improveBalmerFit": g.b(), "lineTypeFilter": g.pick(["E", "A", "no"]),
        "lineForceFilter": g.pick(["W", "S", "no"]), "polynomialDegree": v.int(), "lya": {"profile": g.pick(["asym", "igm"])},
        "lineCatalog": v.str(), "nSigmaSupport": v.num(), "lineWidthType": g.pick(["combined", "instrumentDriven", "velocityDriven"]),
        "fittingMethod": method, "lbdaOffsetFit": g.b(), "ampOffsetFit": g.b(), "lineRatioType": g.pick(["rules", "tplRatio", "tplCorr"])}}}


def removal(g, v):
    return {"method": g.pick(["zero", "irregularSamplingMedian", "irregularSamplingMedian", "raw"])}


SECTION = {"templateFittingSolve": template_fitting, "tplCombinationSolve": template_combination, "lineModelSolve": line_model}


def put(d, path, value):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = value


def get(d, *path):
    for k in path:
        if not isinstance(d, dict):
            return None
        d = d.get(k)
    return d


def cut(d, path):
    parents = []
    for k in path[:-1]:
        parents.append((d, k))
        d = d[k]
    del d[path[-1]]
    if path[0] == "templateCatalog" and not d:   # the section holds nothing else
        p, k = parents[-1]
        del p[k]


class Rule:
    """`path` must be there exactly when need(c); `applies` tells when the question arises at all"""

    def __init__(self, name, path, need, value, warn=True, applies=lambda c: True):
        self.name, self.path, self.need, self.value, self.warn, self.applies = name, path, need, value, warn, applies

    def have(self, c):
        x = get(c, *self.path)
        return x is not None and x != []


TPLFIT = ("tplFit", "tplFitAuto")


def lm_of(c, m):
    return get(c, m, "redshiftSolver", "lineModelSolve", "lineModel")


def meas_of(c, m):
    return get(c, m, "lineMeasSolver", "lineMeasSolve", "lineModel")


def method_of(c, m):
    return get(c, m, "redshiftSolver", "method") or None


def photometry(c):
    for m in c["spectrumModels"]:
        meth = method_of(c, m)
        sec = lm_of(c, m) if meth == "lineModelSolve" else get(c, m, "redshiftSolver", meth)
        if get(sec, "enablePhotometry"):
            return True
    return False


def stage(c, m, s):
    return s in c[m].get("stages", [])


def components(c):
    return [get(c, m, "redshiftSolver", s, "spectrum", "component") for m in c["spectrumModels"]
            for s in ("templateFittingSolve", "tplCombinationSolve")]


def from_templates(c):
    return any(x not in (None, "raw") for x in components(c))


def needs_removal(c):
    lms = [lm_of(c, m) for m in c["spectrumModels"]]
    return from_templates(c) or any(get(l, "continuumComponent") in ("fromSpectrum", "tplFitAuto")
                                    or get(l, "continuumReestimation") not in (None, "no") for l in lms)


def ism(c):
    return any(get(c, m, "redshiftSolver", "templateFittingSolve", "ismFit") or get(c, m, "redshiftSolver", "tplCombinationSolve", "ismFit")
               or get(lm_of(c, m), "continuumFit", "ismFit") for m in c["spectrumModels"])


def rules(c, g, v):
    """the table of what must be there and when, for this configuration's models"""
    t = []
    R = lambda *a, **k: t.append(Rule(*a, **k))
    models = c["spectrumModels"]
    for m in models:
        rs = (m, "redshiftSolver")
        for s in SECTION:
            R(f"{s} section", rs + (s,), lambda c, m=m, s=s: method_of(c, m) == s, lambda s=s: SECTION[s](g, v))
        tf = rs + ("templateFittingSolve",)
        R("photometry weight", tf + ("photometry",), lambda c, tf=tf: bool(get(c, *tf, "enablePhotometry")),
          lambda: {"weight": v.num()}, applies=lambda c, tf=tf: get(c, *tf) is not None)
        lm = rs + ("lineModelSolve", "lineModel")
        used = lambda c, lm=lm: get(c, *lm) is not None
        P = lambda c, k, lm=lm: get(c, *lm, k)
        ratio = lambda c, P=P: P(c, "lineRatioType") in ("tplRatio", "tplCorr")
        R("rules", lm + ("rules",), lambda c, P=P: P(c, "lineRatioType") == "rules", lambda: g.pick(RULE_NAMES), applies=used)
        R("tplRatioCatalog", lm + ("tplRatioCatalog",), ratio, v.str, applies=used)
        R("tplRatioIsmFit", lm + ("tplRatioIsmFit",), ratio, g.b, applies=used)
        R("firstPass tplRatioIsmFit", lm + ("firstPass", "tplRatioIsmFit"), ratio, g.b, applies=used)
        R("continuumReestimation", lm + ("continuumReestimation",), lambda c, P=P: P(c, "continuumComponent") == "fromSpectrum",
          lambda: g.pick(["no", "onlyextrema", "always"]), applies=used)
        R("continuumFit", lm + ("continuumFit",), lambda c, P=P: P(c, "continuumComponent") in TPLFIT,
          lambda P=P: {"fftProcessing": not P(c, "enablePhotometry") and g.b(), "ismFit": g.b(), "igmFit": g.b(), "count": v.int(),
                       "ignoreLineSupport": g.b(), "negativeThreshold": v.num(), "nullThreshold": v.num(), "priors": priors(v)},
          warn=False, applies=used)
        R("useLogLambdaSampling", lm + ("useLogLambdaSampling",),
          lambda c, P=P: P(c, "continuumComponent") in TPLFIT and bool(get(P(c, "continuumFit"), "fftProcessing")), g.b, applies=used)
        R("secondPass", lm + ("secondPass",), lambda c, P=P: P(c, "skipSecondPass") is False,
          lambda: {"halfWindowSize": v.num()}, applies=used)
        R("secondPass continuumFit", lm + ("secondPass", "continuumFit"), lambda c, P=P: P(c, "continuumComponent") in TPLFIT,
          lambda: g.pick(["fromFirstPass", "retryAll", "reFitFirstPass"]), warn=False,
          applies=lambda c, P=P: P(c, "secondPass") is not None)
        R("lya asymProfile", lm + ("lya", "asymProfile"), lambda c, P=P: get(P(c, "lya"), "profile") == "asym", lambda: asym(g, v),
          applies=lambda c, m=m, used=used: used(c) and method_of(c, m) == "lineModelSolve")
        R("templateDir", (m, "templateDir"), lambda c, m=m, P=P: method_of(c, m) in ("templateFittingSolve", "tplCombinationSolve")
          or method_of(c, m) == "lineModelSolve" and P(c, "continuumComponent") in TPLFIT, v.str)
        R("lineMeasSolver section", (m, "lineMeasSolver"), lambda c, m=m: stage(c, m, "lineMeasSolver"), lambda: line_meas(g, v))
        has = lambda c, m=m: stage(c, m, "lineMeasSolver") and get(c, m, "lineMeasSolver", "method") is not None
        R("lineMeasDzHalf", (m, "lineMeasDzHalf"), has, v.small)
        R("lineMeasRedshiftStep", (m, "lineMeasRedshiftStep"), has, v.small)
        ms = (m, "lineMeasSolver", "lineMeasSolve", "lineModel")
        M = lambda c, k, ms=ms: get(c, *ms, k)
        meas = lambda c, ms=ms: get(c, *ms) is not None
        R("linemeas rules", ms + ("rules",), lambda c, M=M: M(c, "lineRatioType") == "rules", lambda: g.pick(RULE_NAMES), applies=meas)
        R("linemeas velocityFit", ms + ("velocityFit",), lambda c, M=M: M(c, "fittingMethod") == "lbfgsb", g.b, applies=meas)
        for k in ("em", "abs"):
            for x in ("Min", "Max"):
                R(f"linemeas {k}VelocityFit{x}", ms + (f"{k}VelocityFit{x}",), lambda c, M=M: bool(M(c, "velocityFit")), v.num, applies=meas)
        R("linemeas lya asymProfile", ms + ("lya", "asymProfile"), lambda c, M=M: get(M(c, "lya"), "profile") == "asym",
          lambda: asym(g, v), applies=lambda c, m=m, meas=meas: meas(c) and stage(c, m, "lineMeasSolver"))
        R("reliabilitySolver", (m, "reliabilitySolver"), lambda c, m=m: stage(c, m, "reliabilitySolver"),
          lambda: {"method": "deepLearningSolver", "deepLearningSolver": {"reliabilityModel": v.str()}})
    R("ebmv", ("ebmv",), ism, lambda: {"start": 0.125, "step": v.num(), "count": v.int()}, warn=False)
    R("photometryTransmissionDir", ("photometryTransmissionDir",), photometry, v.str)
    R("photometryBand", ("photometryBand",), photometry, lambda: [v.str() for _ in range(g.i(1, 3))])
    R("lsf", ("lsf",), lambda c: any(method_of(c, m) == "lineModelSolve" or stage(c, m, "lineMeasSolver") for m in models),
      lambda: {"lsfType": g.pick(["gaussianConstantWidth", "gaussianConstantResolution", "gaussianNISPSIM2016",
                                  "gaussianNISPVSSPSF201707", "fromSpectrumData", "gaussianVariableWidth"])})
    lsf = lambda c: c.get("lsf") is not None
    for key, kind in (("width", "gaussianConstantWidth"), ("resolution", "gaussianConstantResolution"),
                      ("sourceSize", "gaussianNISPVSSPSF201707"), ("gaussianVariableWidthFileName", "gaussianVariableWidth")):
        R(f"lsf {key}", ("lsf", key), lambda c, kind=kind: get(c, "lsf", "lsfType") == kind,
          v.str if key.startswith("gauss") else v.num, applies=lsf)
    for path, need in ((("continuumRemoval",), needs_removal), (("templateCatalog", "continuumRemoval"), from_templates)):
        R(".".join(path), path, need, lambda: removal(g, v))
        med = lambda c, path=path: get(c, *path, "method") == "irregularSamplingMedian"
        app = lambda c, path=path: get(c, *path) is not None
        R(".".join(path) + " medianKernelWidth", path + ("medianKernelWidth",), med, lambda: g.pick([0, 75, 150.5]), applies=app)
        R(".".join(path) + " medianEvenReflection", path + ("medianEvenReflection",), med, g.b, applies=app)
    return t


def expected(c, table):
    """names of what is missing, names of what is unused"""
    missing, unused = [], []
    for r in table:
        if not r.applies(c):
            continue
        need, have = r.need(c), r.have(c)
        if need and not have:
            missing.append(r.name)
        elif have and not need and r.warn:
            unused.append(r.name)
    for m in c["spectrumModels"]:
        l = lm_of(c, m)
        if l and l["improveBalmerFit"] and l["lineRatioType"] != "rules":
            unused.append("improveBalmerFit")
        if l and l["firstPass"]["extremaCount"] < l["extremaCount"]:
            missing.append("firstPass extremaCount")
        if l and l["enablePhotometry"] and get(l, "continuumFit", "fftProcessing"):
            missing.append("fft and photometry")
        tf = get(c, m, "redshiftSolver", "templateFittingSolve")
        if tf and tf["fftProcessing"] and tf["enablePhotometry"]:
            missing.append("fft and photometry")
    cols = {"Wave", "Flux", "Err"} | set(c.get("additionalCols") or [])
    if any(f["key"] not in cols for f in c.get("filters") or []):
        missing.append("filter key")
    return missing, unused


MODELS = ["galaxy", "star", "qso", "sn"]


def complete(g, names=MODELS, min_models=0):
    """a configuration with everything it needs and nothing it does not use"""
    v = Leaves(g)
    models = g.draw(st.lists(st.sampled_from(names), min_size=min_models, max_size=3, unique=True))
    obs = g.pick(["", "merge", "full"])
    c = {"multiObsMethod": obs, "extremaRedshiftSeparation": v.small(), "smoothWidth": v.num(), "autoCorrectInput": g.b(),
         "lambdaRange": {nm: [v.num(), v.num() + 100] for nm in g.draw(st.lists(st.sampled_from(["a", "b", "c"]), min_size=2, max_size=2, unique=True))}
         if obs == "full" else [v.num(), v.num() + 100], "spectrumModels": models}
    if g.b():
        c["airVacuumMethod"] = g.pick(["", "default", "morton2000", "edlen1953", "edlen1966", "peckreeder1972", "ciddor1996"])
    if g.b():
        c["additionalCols"] = [v.str() for _ in range(g.i(1, 2))]
    if g.b():
        c["filters"] = [{"key": g.pick(["Wave", "Flux", "Err"] + c.get("additionalCols", [])),
                         "instruction": g.pick(["<", ">", "<=", ">=", "=", "in", "~in", "!=", "~&", "&", "0&", "^", "~^"]),
                         "value": g.pick([3, 2.5, [1, 2]])} for _ in range(g.i(0, 2))]
    for m in models:
        c[m] = {"stages": [], "redshiftRange": [v.small(), v.num()], "redshiftStep": v.small(), "redshiftSampling": g.pick(["lin", "log"])}
        meth = g.pick([None, "lineModelSolve", "lineModelSolve", "templateFittingSolve", "tplCombinationSolve"])
        if meth:
            c[m]["stages"].append("redshiftSolver")
            c[m]["redshiftSolver"] = {"method": meth}
        for s in ("lineMeasSolver", "reliabilitySolver"):
            if g.i(0, 2) == 0:
                c[m]["stages"].append(s)
    table = rules(c, g, v)
    for r in table:
        if r.applies(c) and r.need(c) and not r.have(c):
            put(c, r.path, r.value())
    return c, table, v


# ---------------------------------------------------------------- the two file formats

V1_KEYS = {
    **{k: k for k in ("calibrationDir", "smoothWidth", "photometryTransmissionDir", "photometryBand", "templateCatalog", "continuumRemoval",
                      "medianKernelWidth", "medianEvenReflection", "improveBalmerFit", "lineRatioType", "overlapThreshold", "betaA", "betaTE",
                      "betaZ", "asymProfile", "switchFixedToFit", "switchFitToFixed")},
    "additionalCols": "additional_cols", "airVacuumMethod": "airvacuum_method", "lsf": "LSF", "lsfType": "LSFType",
    "gaussianVariableWidthFileName": "GaussianVariablewidthFileName", "spectrumModels": "objects", "templateDir": "template_dir",
    "lineMeasDzHalf": "linemeas_dzhalf", "lineMeasRedshiftStep": "linemeas_redshiftstep", "nOfZPriorStrength": "euclidnhaemittersStrength",
    "hAlphaPrior": "haprior", "tplRatioIsmFit": "tplratio_ismfit", "tplRatioCatalog": "tplratio_catalog", "catalogDirPath": "catalog_dirpath",
    "multipleContinuumFitDisable": "multiplecontinuumfit_disable", "extremaCountB": "extremacountB", "deltaStepMax": "deltafitstep",
    "lineModelSolve": "LineModelSolve", "templateFittingSolve": "TemplateFittingSolve", "tplCombinationSolve": "TplcombinationSolve",
    "lineMeasSolve": "LineMeasSolve",
}
V1_VALUES = {"gaussianConstantWidth": "GaussianConstantWidth", "gaussianConstantResolution": "GaussianConstantResolution",
             "gaussianNISPSIM2016": "GaussianNISPSIM2016", "gaussianNISPVSSPSF201707": "GaussianNISPVSSPSF201707",
             "fromSpectrumData": "FROMSPECTRUMDATA", "gaussianVariableWidth": "GaussianVariableWidth",
             "irregularSamplingMedian": "IrregularSamplingMedian", "morton2000": "Morton2000", "edlen1953": "Edlen1953",
             "edlen1966": "Edlen1966", "peckreeder1972": "Peckreeder1972", "ciddor1996": "Ciddor1996",
             "instrumentDriven": "instrumentdriven", "velocityDriven": "velocitydriven", "tplRatio": "tplratio", "tplCorr": "tplcorr",
             "strongWeak": "strongweak", "balmerSingle": "balmersingle", "ratioRange": "ratiorange", "tplFitAuto": "tplfitauto",
             "tplFit": "tplfit", "noContinuum": "nocontinuum", "fromSpectrum": "fromspectrum", "bestChi2": "bestchi2",
             "fromFirstPass": "fromfirstpass", "retryAll": "retryall", "reFitFirstPass": "refitfirstpass",
             "preComputedFineGrid": "precomputedfinegrid", "lineModelSolve": "LineModelSolve", "templateFittingSolve": "TemplateFittingSolve",
             "tplCombinationSolve": "TplcombinationSolve", "lineMeasSolve": "LineMeasSolve"}
FREE = {"key", "value", "instruction", "additionalCols", "spectrumModels"}


def v1_tree(x, names=()):
    if isinstance(x, dict):
        return {(k if k in names else V1_KEYS.get(k, k.lower())): (y if k in FREE else v1_tree(y, names)) for k, y in x.items()}
    if isinstance(x, list):
        return [v1_tree(y, names) for y in x]
    return V1_VALUES.get(x, x) if isinstance(x, str) else x


def to_v1(c, g):
    r = copy.deepcopy(c)
    obs = list(c["lambdaRange"]) if isinstance(c["lambdaRange"], dict) else []
    for m in c["spectrumModels"]:
        o = r[m]
        st_ = o.pop("stages")
        rs = o.pop("redshiftSolver", {})
        o["method"] = rs.pop("method", g.pick(["", None]))
        o.update(rs)
        o["linemeas_method"] = "lineMeasSolve" if "lineMeasSolver" in st_ else g.pick(["", None])
        o.update({k: y for k, y in o.pop("lineMeasSolver", {}).items() if k != "method"})
        o["enable_reliability"] = "reliabilitySolver" in st_
        rel = o.pop("reliabilitySolver", None)
        if rel:
            o["reliability_model"] = rel["deepLearningSolver"]["reliabilityModel"]
    keep = set(c["spectrumModels"]) | set(obs) | {"linemeas_method", "enable_reliability", "reliability_model"}
    return v1_tree(r, keep)


def to_v2(c, g):
    r = {}
    for k, y in c.items():
        r[("spectrumModel_" + k) if k in c["spectrumModels"] else k] = copy.deepcopy(y)
    r["version"] = 2
    return r


def same(a, b, path=""):
    """first difference of two trees, None when equal; 1 and 1.0 and True are told apart"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return f"{path}.{k} only in the second: {b[k]!r}"
            if k not in b:
                return f"{path}.{k} only in the first: {a[k]!r}"
            d = same(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {a} and {b}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if type(a) is type(b) and a == b else f"{path}: {a!r} and {b!r}"


def leaves(x):
    if isinstance(x, dict):
        return sum(map(leaves, x.values()))
    if isinstance(x, list):
        return sum(map(leaves, x))
    return 1


def without_stages(c):
    r = copy.deepcopy(c)
    for m in c["spectrumModels"]:
        if r.get(m, {}).get("stages") == []:
            del r[m]["stages"]
    return r


def shuffled(g, x):
    """the same tree with its keys in another order"""
    if isinstance(x, dict):
        ks = list(x)
        if len(ks) > 1 and g.i(0, 4) == 0:
            ks = ks[::-1]
        return {k: shuffled(g, x[k]) for k in ks}
    return [shuffled(g, y) for y in x] if isinstance(x, list) else x


@prop("P22", "conversion", 2500, 60000)
def conversion(g):
    v1 = g.b()
    names = MODELS if v1 else MODELS + ["my_model", "spectrum", "Galaxy 2", "model.x", "version2"]
    c, table, v = complete(g, names)
    for r in g.draw(st.lists(st.sampled_from(table), max_size=4)):   # what is not used is converted too
        if r.applies(c) and not r.have(c) and r.path[-1] not in ("lineMeasSolver", "reliabilitySolver"):
            put(c, r.path, r.value())
    raw = shuffled(g, to_v1(c, g) if v1 else to_v2(c, g))
    if g.b():
        raw = json.loads(json.dumps(raw))
    before = copy.deepcopy(raw)
    if v1 and g.b():
        raw["version"] = before["version"] = 1
    conv = ParametersConverterSelector().get_converter(1 if v1 else 2)().convert(raw)
    g.note("version", 1 if v1 else 2, "models", {m: (method_of(c, m), c[m]["stages"]) for m in c["spectrumModels"]}, "leaves", leaves(c))
    require(same(raw, before) is None, "input-modified", lambda: same(raw, before))
    got = {k: y for k, y in conv.items() if k != "version"}
    d = same(without_stages(got) if v1 else got, without_stages(c) if v1 else c)
    require(d is None, "converted", lambda: f"version {1 if v1 else 2}: {d} (converted, expected)")
    require(conv.get("version") == before.get("version"), "version", conv.get("version"))
    # the converted tree is a tree of its own where it was changed
    for m in c["spectrumModels"]:
        conv[m]["added"] = 1
        require("added" not in raw.get(m, {}) or not v1, "input-shared", m)
        del conv[m]["added"]
    g.nontrivial(bool(c["spectrumModels"]) and leaves(c) > 25)


@prop("P22", "free-text", 300, 5000)
def free_text(g):
    """values that are names of the user's own choosing are not renamed, whatever they are"""
    c, table, v = complete(g, MODELS, 1)
    word = g.pick(["LSF", "tplratio", "lambdarange", "objects", "firstpass", "linemodel", "method", "step", "width", "Flag", "mask", "stars"])
    where = g.pick(["additionalCols", "photometryBand", "templateDir"])
    if where == "templateDir":
        c[c["spectrumModels"][0]][where] = word
    else:
        c[where] = [word]
    raw = to_v1(c, g)
    conv = ParametersConverterSelector().get_converter(1)().convert(raw)
    g.note(where, word)
    d = same(without_stages({k: y for k, y in conv.items() if k != "version"}), without_stages(c))
    renamed = word.lower() in [x.lower() for x in list(V1_KEYS) + list(V1_VALUES)] + ["lambdarange", "firstpass", "linemodel"]
    require(d is None, "free-text-renamed" if renamed else "free-text-changed", lambda: d)
    g.nontrivial()


def run(c):
    """(refused code or None, flagged)"""
    zflag.resetFlag()
    try:
        ParametersChecker(c).custom_check()
        code = None
    except AmzException as e:
        code = code_of(e)
    flagged = flags()
    return code, flagged


def judge(g, c, table, code, flagged):
    missing, unused = expected(c, table)
    g.note("missing", missing, "unused", unused, "refused", code, "flagged", flagged)
    if missing:
        require(code is not None, "missing-accepted", lambda: f"accepted although missing: {missing}")
        require(code == "INVALID_PARAMETER_FILE", "refusal-code", lambda: f"{code} for {missing}")
    else:
        require(code is None, "complete-refused", lambda: f"refused ({code}) although nothing is missing, unused: {unused}")
        require(flagged == bool(unused), "unused-not-flagged" if unused else "flagged-wrongly", lambda: f"unused: {unused}")
    return missing, unused


@prop("P22", "checks", 12000, 300000)
def checks(g):
    c, table, v = complete(g, MODELS, 1)
    code, flagged = run(copy.deepcopy(c))
    missing, unused = expected(c, table)
    assert not missing and not unused, (missing, unused)
    require(code is None, "complete-refused", lambda: f"{code}: {json.dumps(c)}")
    require(not flagged, "flagged-wrongly", "a complete configuration was flagged")
    done = []
    for _ in range(g.i(1, 2) if g.i(0, 3) == 0 else 1):
        kind = g.pick(["toggle"] * 12 + ["option", "option", "option", "extrema", "balmer", "fft", "filter-key", "stage"])
        m = g.pick(c["spectrumModels"])
        l, tf = lm_of(c, m), get(c, m, "redshiftSolver", "templateFittingSolve")
        if kind == "toggle":
            rs = [r for r in table if r.applies(c)]
            r = g.pick(rs)
            if r.have(c):
                cut(c, r.path)
                done.append("-" + r.name)
            else:
                if r.name.endswith("section") and r.path[-1] in SECTION:
                    x = SECTION[r.path[-1]](g, v)   # an unused section of another method: asks for nothing itself
                    for k in ("ismFit", "fftProcessing", "enablePhotometry"):
                        if k in x:
                            x[k] = False
                    if "spectrum" in x:
                        x["spectrum"]["component"] = "raw"
                    if "lineModel" in x:
                        x["lineModel"].update(continuumComponent="noContinuum", lineRatioType="rules", rules="all", skipSecondPass=True,
                                              enablePhotometry=False, improveBalmerFit=False)
                        x["lineModel"].pop("photometry", None)
                    put(c, r.path, x)
                else:
                    put(c, r.path, r.value())
                done.append("+" + r.name)
        elif kind == "option":     # changing an option changes what is needed
            if l:
                k, vals = g.pick([("lineRatioType", ["rules", "tplRatio", "tplCorr"]), ("skipSecondPass", [True, False]), ("enablePhotometry", [True, False]),
                                  ("continuumComponent", ["fromSpectrum", "tplFit", "tplFitAuto", "noContinuum"])])
                l[k] = g.pick(vals)
                done.append(f"{k}={l[k]}")
            elif tf:
                k = g.pick(["ismFit", "enablePhotometry", "fftProcessing"])
                tf[k] = g.b()
                done.append(f"{k}={tf[k]}")
            elif c.get("lsf"):
                c["lsf"]["lsfType"] = g.pick(["gaussianConstantWidth", "gaussianConstantResolution", "gaussianNISPVSSPSF201707", "gaussianVariableWidth"])
                done.append(c["lsf"]["lsfType"])
        elif kind == "extrema" and l:
            l["firstPass"]["extremaCount"] = l["extremaCount"] + g.i(-1, 1)
            done.append("extrema")
        elif kind == "balmer" and l:
            l["improveBalmerFit"] = True
            done.append("balmer")
        elif kind == "fft" and (tf or get(l, "continuumFit")):
            (tf or l["continuumFit"])["fftProcessing"] = True
            (tf or l)["enablePhotometry"] = True
            done.append("fft and photometry")
        elif kind == "filter-key":
            c.setdefault("filters", []).append({"key": g.pick(["nope", "wave", "Err", "a b/1"]), "instruction": "<", "value": 1})
            done.append("filter-key")
        elif kind == "stage":
            s = g.pick(["lineMeasSolver", "reliabilitySolver"])
            x = c[m]["stages"]
            x.remove(s) if s in x else x.append(s)
            done.append(f"stage {s}")
    before = copy.deepcopy(c)
    code, flagged = run(c)
    g.note("changed", done, {m: (method_of(c, m), c[m]["stages"]) for m in c["spectrumModels"]})
    require(same(c, before) is None, "input-modified", lambda: same(c, before))
    missing, unused = judge(g, c, table, code, flagged)
    g.label("refused" if missing else "flagged" if unused else "fine")
    g.nontrivial(bool(missing or unused))


def force(c, g, v, version):
    """what the format asks for in any case"""
    for m in c["spectrumModels"]:
        l, ms = lm_of(c, m), meas_of(c, m)
        if version == 2:
            c[m].setdefault("templateDir", v.str())
        if l:
            l.setdefault("secondPass", {"halfWindowSize": v.num()})
            l["secondPass"].setdefault("continuumFit", "fromFirstPass")
        if ms:
            ms.setdefault("velocityFit", False)
    if version == 1 and "lsf" not in c:
        c["lsf"] = {"lsfType": "fromSpectrumData"}


@prop("P22", "files", 1600, 40000)
def files(g):
    """whole files through Parameters(): schema, conversion, checks, completion"""
    version = g.pick([1, 2, 2])
    c, table, v = complete(g, MODELS if version == 1 else MODELS + ["my_model", "spectrum"], 0)
    force(c, g, v, version)
    change = g.pick(["none", "none", "toggle", "root", "model", "unknown", "type", "enum"])
    refuse = None
    done = change
    if change == "toggle":
        r = g.pick([r for r in table if r.applies(c)])
        banned = {("LSF",)}
        if not r.have(c):
            change = "none"
        elif version == 1 and r.path[-1] in ("lineMeasSolver", "reliabilitySolver"):
            change = "none"     # one key of version 1
        else:
            cut(c, r.path)
            done = "-" + r.name
            if version == 2 and r.path[-1] == "templateDir" or version == 1 and r.path == ("lsf",) or r.path[-1] in ("secondPass", "velocityFit") \
                    or r.path[-2:] == ("secondPass", "continuumFit"):
                refuse = "schema"
    raw = to_v1(c, g) if version == 1 else to_v2(c, g)
    sections = [raw[k] for k in raw if isinstance(raw[k], dict) and k not in ("lambdaRange", "lambdarange", "templateCatalog")]
    models = [raw[m if version == 1 else "spectrumModel_" + m] for m in c["spectrumModels"]]
    if change == "root":
        k = g.pick(["multiObsMethod", "lambdaRange", "extremaRedshiftSeparation", "smoothWidth", "autoCorrectInput", "spectrumModels"])
        del raw[V1_KEYS.get(k, k.lower()) if version == 1 else k]
        refuse = done = f"no {k}"
    elif change == "model" and models:
        o = g.pick(models)
        k = g.pick([x for x in o if x.lower() in ("redshiftrange", "redshiftstep", "redshiftsampling", "enable_reliability", "stages")])
        del o[k]
        refuse = done = f"no {k}"
    elif change == "unknown" and sections:
        g.pick(sections + [raw])["zzz"] = 1
        refuse = done = "unknown key"
    elif change == "type" and models:
        o = g.pick(models)
        k = g.pick([x for x in o if x.lower() in ("redshiftstep", "redshiftsampling", "redshiftrange")])
        o[k] = g.pick([None, {"a": 1}, True if k.lower() != "redshiftsampling" else 3])
        refuse = done = f"{k}={o[k]!r}"
    elif change == "enum":
        raw["multiobsmethod" if version == 1 else "multiObsMethod"] = g.pick(["Merge", "all", "x"])
        refuse = done = "enum"
    before = copy.deepcopy(raw)
    zflag.resetFlag()
    try:
        p = Parameters(raw)
        code = None
    except AmzException as e:
        code = code_of(e)
    flagged = flags()
    require(same(raw, before) is None, "input-modified", lambda: same(raw, before))
    g.note("version", version, "change", done, {m: (method_of(c, m), c[m]["stages"]) for m in c["spectrumModels"]})
    g.nontrivial(bool(c["spectrumModels"]))
    if refuse:
        require(code is not None, "missing-accepted", lambda: f"version {version}: accepted: {refuse}")
        require(code == "INVALID_PARAMETER_FILE", "refusal-code", lambda: f"version {version}: {code} for {refuse}")
        return
    missing, unused = judge(g, c, table, code, flagged)
    if missing:
        return
    check_completed(p.parameters, c, version)


def check_completed(result, c, version=2):
    """what the user gave and is used is kept, what is missing has its default, nothing else appears"""
    want = copy.deepcopy(c)
    default = {"method": "default", "medianKernelWidth": -1, "medianEvenReflection": True}
    for path, need in ((("continuumRemoval",), needs_removal), (("templateCatalog", "continuumRemoval"), from_templates)):
        if not need(c):
            put(want, path, dict(default))
        elif get(c, *path, "method") != "irregularSamplingMedian":
            get(want, *path).update(medianKernelWidth=-1, medianEvenReflection=True)
    got = {k: y for k, y in copy.deepcopy(result).items() if k != "version"}
    for m in c["spectrumModels"]:
        l = lm_of(c, m)
        if l is None:          # an empty line model may be added, with nothing in it but the two defaults
            x = lm_of(got, m)
            require(x is None or x == {"continuumReestimation": "no", "useLogLambdaSampling": False}, "completed", lambda: f"{m}: line model {x}")
            if x is not None:
                del got[m]["redshiftSolver"]["lineModelSolve"]
                if not got[m]["redshiftSolver"] and "redshiftSolver" not in c[m]:
                    del got[m]["redshiftSolver"]
            continue
        w = lm_of(want, m)
        if l["fittingMethod"] != "hybrid" and l["continuumComponent"] != "fromSpectrum":
            w["continuumReestimation"] = "no"
        elif "continuumReestimation" not in l:
            require(lm_of(got, m).get("continuumReestimation") in (None, "no"), "completed", "continuumReestimation appeared")
            lm_of(got, m).pop("continuumReestimation", None)
        if not (l["continuumComponent"] in TPLFIT and l["continuumFit"]["fftProcessing"]):
            w["useLogLambdaSampling"] = False
    d = same(without_stages(got) if version == 1 else got, without_stages(want) if version == 1 else want)
    require(d is None, "completed", lambda: f"{d} (completed, expected)")


@prop("P22", "completion", 2500, 60000)
def completion(g):
    c, table, v = complete(g, MODELS + ["my_model"], 1)
    for m in c["spectrumModels"]:
        if g.i(0, 3) == 0:
            cut(c, (m, "stages")) if g.b() else None
            c[m].setdefault("stages", [])
    raw = to_v2(c, g)
    before = copy.deepcopy(raw)
    p = Parameters(raw, Checker=NoCheck)
    require(same(raw, before) is None, "input-modified", lambda: same(raw, before))
    g.note({m: (method_of(c, m), c[m]["stages"]) for m in c["spectrumModels"]}, "removal", get(c, "continuumRemoval"))
    check_completed(p.parameters, c)
    # completing what is complete changes nothing
    again = {("spectrumModel_" + k) if k in c["spectrumModels"] else k: y for k, y in copy.deepcopy(p.parameters).items()}
    if needs_removal(c) and from_templates(c):
        d = same(Parameters(again, Checker=NoCheck).parameters, p.parameters)
        require(d is None, "not-idempotent", lambda: d)
    # two sets of parameters share nothing
    q = Parameters(to_v2(c, g), Checker=NoCheck)
    snapshot = copy.deepcopy(q.parameters)
    for r in (p.parameters["continuumRemoval"], p.parameters["templateCatalog"]["continuumRemoval"]):
        r["method"] = "changed"
        r["other"] = 1
    d = same(q.parameters, snapshot) or same(Parameters(to_v2(c, g), Checker=NoCheck).parameters, snapshot)
    require(d is None, "shared", lambda: d)
    require(json.loads(q.to_json()) == snapshot, "to-json", "to_json() is not the parameters")
    g.nontrivial(not needs_removal(c) or not from_templates(c))


def accessor_table():
    """(method name, args after the model, path below the root, None where a model is not an argument)"""
    RS, TF, TC = ("redshiftSolver",), ("redshiftSolver", "templateFittingSolve"), ("redshiftSolver", "tplCombinationSolve")
    LM, MS = ("redshiftSolver", "lineModelSolve", "lineModel"), ("lineMeasSolver", "lineMeasSolve", "lineModel")
    m = [
        ("get_spectrum_model_section", ()), ("get_redshift_solver_section", RS), ("get_linemeas_solver_section", ("lineMeasSolver",)),
        ("get_linemeas_solve_section", ("lineMeasSolver", "lineMeasSolve")), ("get_linemeas_dzhalf", ("lineMeasDzHalf",)),
        ("get_redshiftrange", ("redshiftRange",)), ("get_redshiftstep", ("redshiftStep",)), ("get_redshift_sampling", ("redshiftSampling",)),
        ("get_linemeas_redshiftstep", ("lineMeasRedshiftStep",)), ("get_reliability_section", ("reliabilitySolver",)),
        ("get_reliability_method", ("reliabilitySolver", "method")), ("get_deep_learning_solver_section", ("reliabilitySolver", "deepLearningSolver")),
        ("get_reliability_model", ("reliabilitySolver", "deepLearningSolver", "reliabilityModel")), ("get_template_dir", ("templateDir",)),
        ("get_template_fitting_section", TF), ("get_template_fitting_fft", TF + ("fftProcessing",)), ("get_template_fitting_ism", TF + ("ismFit",)),
        ("get_template_fitting_photometry_enabled", TF + ("enablePhotometry",)), ("get_template_fitting_photometry_section", TF + ("photometry",)),
        ("get_template_fitting_photometry_weight", TF + ("photometry", "weight")), ("get_template_fitting_spectrum_component", TF + ("spectrum", "component")),
        ("get_template_fitting_igmfit", TF + ("igmFit",)), ("get_template_combination_section", TC), ("get_template_combination_ism", TC + ("ismFit",)),
        ("get_template_combination_igmfit", TC + ("igmFit",)), ("get_template_combination_spectrum_component", TC + ("spectrum", "component")),
        ("get_linemodel_solve_section", LM[:-1]), ("get_linemodel_solve_linemodel_section", LM), ("get_line_model_photometry", LM + ("enablePhotometry",)),
        ("get_linemodel_lya_section", LM + ("lya",)), ("get_linemodel_lya_profile", LM + ("lya", "profile")),
        ("get_linemodel_lya_asym_section", LM + ("lya", "asymProfile")), ("get_linemodel_line_ratio_type", LM + ("lineRatioType",)),
        ("get_linemodel_rules", LM + ("rules",)), ("get_linemodel_tplratio_catalog", LM + ("tplRatioCatalog",)),
        ("get_linemodel_tplratio_ismfit", LM + ("tplRatioIsmFit",)), ("get_linemodel_continuum_component", LM + ("continuumComponent",)),
        ("get_linemodel_continuumfit_section", LM + ("continuumFit",)), ("get_linemodel_continuumfit_fft", LM + ("continuumFit", "fftProcessing")),
        ("get_linemodel_secondpass_section", LM + ("secondPass",)), ("get_linemodel_secondpass_continuumfit", LM + ("secondPass", "continuumFit")),
        ("get_linemodel_continuum_reestimation", LM + ("continuumReestimation",)), ("get_linemodel_useloglambdasampling", LM + ("useLogLambdaSampling",)),
        ("get_linemodel_continuumfit_ismfit", LM + ("continuumFit", "ismFit")), ("get_linemodel_continuumfit_fftprocessing", LM + ("continuumFit", "fftProcessing")),
        ("get_linemodel_firstpass_section", LM + ("firstPass",)), ("get_linemodel_firstpass_tplratio_ismfit", LM + ("firstPass", "tplRatioIsmFit")),
        ("get_linemodel_firstpass_extremacount", LM + ("firstPass", "extremaCount")), ("get_linemodel_fitting_method", LM + ("fittingMethod",)),
        ("get_linemodel_skipsecondpass", LM + ("skipSecondPass",)), ("get_linemodel_nsigmasupport", LM + ("nSigmaSupport",)),
        ("get_linemodel_improve_balmer_fit", LM + ("improveBalmerFit",)), ("get_linemodel_extremacount", LM + ("extremaCount",)),
        ("get_linemeas_linemodel_section", MS), ("get_linemeas_line_ratio_type", MS + ("lineRatioType",)), ("get_linemeas_rules", MS + ("rules",)),
        ("get_linemeas_fitting_method", MS + ("fittingMethod",)), ("get_linemeas_velocity_fit", MS + ("velocityFit",)),
        ("get_linemeas_nsigmasupport", MS + ("nSigmaSupport",)), ("get_linemodel_linecatalog", LM + ("lineCatalog",)),
        ("get_linemeas_linecatalog", MS + ("lineCatalog",)), ("get_linemeas_lya_section", MS + ("lya",)),
        ("get_linemeas_lya_profile", MS + ("lya", "profile")), ("get_linemeas_lya_asym_section", MS + ("lya", "asymProfile")),
    ]
    two = [("get_nsigmasupport", {"lineModelSolve": LM + ("nSigmaSupport",), "lineMeasSolve": MS + ("nSigmaSupport",)}),
           ("get_linecatalog", {"lineModelSolve": LM + ("lineCatalog",), "lineMeasSolve": MS + ("lineCatalog",)}),
           ("get_linemodel_section", {"lineModelSolve": LM, "lineMeasSolve": MS})]
    for k in ("emVelocityFitMin", "emVelocityFitMax", "absVelocityFitMin", "absVelocityFitMax"):
        two.append(("get_linemeas_velocity_fit_param", {k: MS + (k,)}))
    root = [("get_photometry_transmission_dir", ("photometryTransmissionDir",)), ("get_multiobs_method", ("multiObsMethod",)),
            ("get_spectrum_models", ("spectrumModels",)), ("get_template_catalog_section", ("templateCatalog",)), ("get_lsf", ("lsf",)),
            ("get_lsf_type", ("lsf", "lsfType")), ("get_lsf_width", ("lsf", "width")), ("get_lsf_resolution", ("lsf", "resolution")),
            ("get_lsf_sourcesize", ("lsf", "sourceSize")), ("get_lsf_width_file_name", ("lsf", "gaussianVariableWidthFileName")),
            ("get_continuum_removal_section", ("continuumRemoval",)), ("get_continuum_removal_method", ("continuumRemoval", "method")),
            ("get_continuum_removal_median_kernel_width", ("continuumRemoval", "medianKernelWidth")),
            ("get_continuum_median_kernel_reflection", ("continuumRemoval", "medianEvenReflection")), ("get_ebmv_section", ("ebmv",)),
            ("get_ebmv_count", ("ebmv", "count")), ("get_ebmv_step", ("ebmv", "step")), ("get_ebmv_start", ("ebmv", "start")),
            ("get_filters", ("filters",)), ("get_additional_cols", ("additionalCols",))]
    return m, two, root


ACC = accessor_table()


@prop("P22", "accessors", 2500, 60000)
def accessors(g):
    c, table, v = complete(g, MODELS, 1)
    for r in g.draw(st.lists(st.sampled_from(table), max_size=4)):
        if r.applies(c) and not r.have(c):
            put(c, r.path, r.value())
    p = Parameters(to_v2(c, g), Checker=NoCheck)
    d = p.parameters
    g.note({m: (method_of(c, m), c[m]["stages"]) for m in c["spectrumModels"]}, c["multiObsMethod"], c["lambdaRange"])
    per_model, two, root = ACC

    def eq(got, want, name, *args):
        require(same(got, want) is None, "accessor", lambda: f"{name}{args} gives {got!r}, stored {want!r}")
    for m in c["spectrumModels"]:
        for name, path in per_model:
            eq(getattr(p, name)(m), get(d, m, *path), name, m)
        for name, by in two:
            for k, path in by.items():
                eq(getattr(p, name)(m, k), get(d, m, *path), name, m, k)
        meth, meas = method_of(c, m), "lineMeasSolve" if stage(c, m, "lineMeasSolver") and get(c, m, "lineMeasSolver") else None
        eq(p.get_stages(m), c[m]["stages"], "get_stages", m)
        eq(p.get_redshift_solver_method(m), meth, "get_redshift_solver_method", m)
        eq(p.get_linemeas_method(m), meas, "get_linemeas_method", m)
        eq(p.get_solve_methods(m), [x for x in (meth, meas) if x], "get_solve_methods", m)
        eq(p.get_linemodel_methods(m), [x for x in (meas, meth) if x in ("lineMeasSolve", "lineModelSolve")], "get_linemodel_methods", m)
        eq(p.get_redshift_solver_method_section(m), get(d, m, "redshiftSolver", meth), "get_redshift_solver_method_section", m)
        eq(p.get_reliability_enabled(m), stage(c, m, "reliabilitySolver"), "get_reliability_enabled", m)
        ratio = meth == "lineModelSolve" and lm_of(c, m)["lineRatioType"] in ("tplRatio", "tplCorr")
        eq(p.is_tplratio_catalog_needed(m), ratio, "is_tplratio_catalog_needed", m)
        for s, want in {"redshiftSolver": meth is not None, "lineMeasSolver": meas is not None, "reliabilitySolver": stage(c, m, "reliabilitySolver"),
                        "linemeas_catalog_load": meas is not None and meth is None, "subClassifSolver": ratio}.items():
            eq(p.stage_enabled(m, s), want, "stage_enabled", m, s)
        try:
            p.stage_enabled(m, "nostage")
            require(False, "unknown-stage", "accepted")
        except AmzException as e:
            require(code_of(e) == "INTERNAL_ERROR" and "nostage" in str(e), "unknown-stage", str(e))
        eq(p.get_stage_from_method("lineMeasSolve"), "lineMeasSolver", "get_stage_from_method")
        for s in SECTION:
            eq(p.get_stage_from_method(s), "redshiftSolver", "get_stage_from_method", s)
        igm = {"lineModelSolve": get(lm_of(c, m), "lya", "profile") == "igm", "lineMeasSolve": get(meas_of(c, m), "lya", "profile") == "igm",
               "templateFittingSolve": get(c, m, "redshiftSolver", "templateFittingSolve", "igmFit"),
               "tplCombinationSolve": get(c, m, "redshiftSolver", "tplCombinationSolve", "igmFit")}
        for k, want in igm.items():
            eq(p.get_solve_method_igm_fit(m, k), want, "get_solve_method_igm_fit", m, k)
    for name, path in root:
        eq(getattr(p, name)(), get(d, *path), name)
    eq(p.get_continuum_removal_section("templateCatalog"), get(d, "templateCatalog", "continuumRemoval"), "templateCatalog continuum removal")
    eq(p.get_continuum_removal_method("templateCatalog"), get(d, "templateCatalog", "continuumRemoval", "method"), "templateCatalog method")
    eq(p.get_continuum_removal_median_kernel_width("templateCatalog"), get(d, "templateCatalog", "continuumRemoval", "medianKernelWidth"), "tc width")
    eq(p.get_airvacuum_method(), c.get("airVacuumMethod", ""), "get_airvacuum_method")
    eq(p.get_photometry_bands(), c.get("photometryBand", []), "get_photometry_bands")
    eq(p.photometry_is_enabled(), photometry(c), "photometry_is_enabled")
    eq(p.get_objects_solve_methods(), {m: method_of(c, m) for m in c["spectrumModels"] if method_of(c, m)}, "get_objects_solve_methods")
    eq(p.get_objects_linemeas_methods(), {m: "lineMeasSolve" for m in c["spectrumModels"] if stage(c, m, "lineMeasSolver")}, "get_objects_linemeas_methods")
    eq(p.is_a_redshift_solver_used(), any(method_of(c, m) for m in c["spectrumModels"]), "is_a_redshift_solver_used")
    lr = c["lambdaRange"]
    if c["multiObsMethod"] == "full":
        eq(sorted(p.get_observation_ids()), sorted(lr), "get_observation_ids")
        for k in lr:
            eq(p.get_lambda_range(k), lr[k], "get_lambda_range", k)
        lo, hi = min(x[0] for x in lr.values()), max(x[1] for x in lr.values())
    else:
        eq(p.get_observation_ids(), [""], "get_observation_ids")
        eq(p.get_lambda_range(), lr, "get_lambda_range")
        lo, hi = lr
    eq(p.get_lambda_range_min(), lo, "get_lambda_range_min")
    eq(p.get_lambda_range_max(), hi, "get_lambda_range_max")
    clash = any(method_of(c, m) == "lineModelSolve" and stage(c, m, "lineMeasSolver") for m in c["spectrumModels"])
    try:
        p.check_linemeas_validity()
        require(not clash, "linemeas-validity", "line measurement from a catalogue accepted along a line model")
    except AmzException as e:
        require(clash, "linemeas-validity", str(e))
        require(code_of(e) == "INCOHERENT_CONFIG_OPTIONS", "linemeas-validity-code", code_of(e))
    # the setters change what they say, nothing else
    m = g.pick(c["spectrumModels"])
    snapshot = copy.deepcopy(d)
    p.set_redshiftref(m, 1.5)
    snapshot[m]["redshiftref"] = 1.5
    for meth, path in (("lineModelSolve", ("redshiftSolver", "lineModelSolve", "lineModel")), ("lineMeasSolve", ("lineMeasSolver", "lineMeasSolve", "lineModel"))):
        if get(d, m, *path) is not None:
            p.set_velocity_absorption(m, meth, 111.5)
            p.set_velocity_emission(m, meth, 222.5)
            get(snapshot, m, *path).update(velocityAbsorption=111.5, velocityEmission=222.5)
    if d.get("lsf"):
        p.set_lsf_param("width", 7.25)
        snapshot["lsf"]["width"] = 7.25
    x = same(p.parameters, snapshot)
    require(x is None, "setters", lambda: x)
    g.nontrivial(leaves(c) > 40)
