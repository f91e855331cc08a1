#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit)."""
import json, os
L = "RedshiftLibrary/src/lib/"
P = "pylibamazed/python/pylibamazed/"
props = []


def add(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why,
                  "anchors": {"files": files, **({"state": state} if state else {}),
                              "mechanism": [{"name": n, "where": w} for n, w in mech],
                              **({"observe_at": observe} if observe else {})}})


add("P01", "The redshift posterior is normalised and combines models by their evidence",
    "For any chi-square curves, redshift priors and model priors on any increasing redshift grid, the combined log-posterior integrates to one over the grid (trapezoid rule) and the reported evidence is the integral of likelihood times normalised prior; marginalisation gives the mixture of the per-model posteriors weighted by evidence times model prior, and best-chi2 gives the posterior of the pointwise smallest chi-square under a flat prior. "
    "Adding a constant to every chi-square changes the evidence by minus half of it and leaves the posterior unchanged, the order of the models does not matter, and underflow never destroys the result. "
    "Inputs that cannot give a posterior (NaN merit, inconsistent sizes, model priors that do not sum to about one, flat or NaN posterior, unknown combination) are refused with an error.",
    ["inputs"], "all chi-square arrays, priors, grids (regular or irregular) and combination options",
    "Normalisation and mixture identities must hold for every curve, including chi-square ranges of thousands where naive exponentials underflow; the tests use one or two small fixed curves.",
    [L + "operator/pdfz.cpp", L + "operator/logZPdfResult.cpp", L + "statistics/zprior.cpp"],
    [("log-sum-exp normalisation", L + "operator/pdfz.cpp: COperatorPdfz::ComputePdf, logSumExpTrick"),
     ("marginalisation over models", L + "operator/pdfz.cpp: COperatorPdfz::Marginalize"),
     ("validity check", L + "operator/logZPdfResult.cpp: CLogZPdfResult::isPdfValid"),
     ("priors", L + "statistics/zprior.cpp")])

add("P02", "Redshift grids have the requested step and range; refinement inserts exactly",
    "A redshift grid built from a range and a step is strictly increasing, starts at the range's lower end, stays in the range and ends within one step of its upper end, with constant step in z (linear) or in log(1+z) (logarithmic); a centred grid contains its centre. "
    "Inserting a finer grid into a coarse one gives a strictly increasing grid made of the fine points inside the refined window and the coarse points outside it, and the reported insertion position and count are right. "
    "A posterior rebuilt from its grid parameters lies on the same redshifts, and converting it to a regular grid keeps its values where the grids coincide and interpolates elsewhere.",
    ["inputs"], "all ranges, steps, samplings and refinement windows, including windows touching the ends of the grid or overlapping one another",
    "Off-by-one and rounding errors in grid construction show only for particular combinations of range, step and window position.",
    [L + "common/zgridparam.cpp", L + "operator/logZPdfResult.cpp", "RedshiftLibrary/RedshiftLibrary/common/range.h"],
    [("grid construction", "RedshiftLibrary/RedshiftLibrary/common/range.h: SpreadOver, SpreadOverLog, SpreadOverLogZplusOne"),
     ("insertion of a finer window", L + "common/zgridparam.cpp: CZGridListParams::insertSubgrid"),
     ("regular grid conversion", L + "operator/logZPdfResult.cpp: convertToRegular, extrapolate_on_right_border")])

add("P03", "Candidate peaks are the highest separated local maxima of the posterior",
    "The peaks extracted from any sampled curve are local maxima (or minima when asked) lying in the search range, in decreasing order, at most the requested number, no two of them closer than the requested separation, and the highest qualifying maximum is always kept. "
    "With a cut threshold, only peaks within the threshold of the best one survive, except that a requested minimum number of peaks is kept. "
    "Peaks at the borders are reported only when allowed.",
    ["inputs"], "all curves (plateaus, monotone, spiky), ranges, separations, counts and cuts",
    "Plateau handling, separation filtering and thresholding interact; the tests check a few hand-made curves.",
    [L + "extremum/extremum.cpp"],
    [("peak search", L + "extremum/extremum.cpp: CExtremum::FindAllPeaks"),
     ("threshold cut", L + "extremum/extremum.cpp: CExtremum::Cut_Threshold"),
     ("separation and count", L + "extremum/extremum.cpp: CExtremum::FilterOutNeighboringPeaksAndTruncate")])

add("P04", "Redshift candidates are ranked by the probability integrated around their peak",
    "Each candidate's redshift error comes from the curvature of the log-posterior at its peak, and its probability is the integral of the posterior over plus or minus three such errors (a fixed width when the curvature is unusable), clipped to the grid. "
    "Integration ranges of different candidates do not overlap: strongly overlapping neighbours are merged by dropping the weaker one, slightly overlapping ones share the overlap. "
    "Candidates come out in decreasing order of integrated probability, with ranks 0,1,2..., unique identifiers and at most the requested number.",
    ["inputs"], "all posteriors and candidate sets, including crowded ones, peaks at the border and irregular second-pass grids",
    "Ranking decides the published redshift; overlap handling depends on the configuration of all candidates at once.",
    [L + "statistics/pdfcandidatesz.cpp", L + "statistics/deltaz.cpp", L + "operator/pdfz.cpp"],
    [("integration ranges", L + "statistics/pdfcandidatesz.cpp: SetIntegrationRanges"),
     ("integration", L + "statistics/pdfcandidatesz.cpp: getCandidateSumTrapez"),
     ("curvature error", L + "statistics/deltaz.cpp"),
     ("ranking", L + "statistics/pdfcandidatesz.cpp: SortByValSumProbaInt; " + L + "operator/pdfz.cpp: Compute")])

add("P05", "Resampling a spectrum keeps its values, its mask and its error propagation",
    "Resampling a spectrum onto a target grid with any interpolation (linear, nearest point, spline, precomputed fine grid) gives the interpolant of the input samples at each target wavelength inside the covered range, marks exactly those samples as valid, and puts zeros elsewhere. "
    "Resampling onto the spectrum's own grid is the identity, and resampling is linear in the flux. "
    "Errors are interpolated and scaled according to the chosen error option, and targets not covered are refused or masked, never read out of bounds.",
    ["inputs"], "all source and target grids, ranges, interpolation and error-propagation options",
    "Interpolation indices depend on the relative placement of two irregular grids; tests use a couple of aligned grids.",
    [L + "spectrum/rebin/rebin.cpp", L + "spectrum/rebin/rebinLinear.cpp", L + "spectrum/rebin/rebinNgp.cpp",
     L + "spectrum/rebin/rebinSpline.cpp", L + "spectrum/rebin/rebinFineGrid.cpp", L + "spectrum/spectralaxis.cpp"],
    [("interpolation", L + "spectrum/rebin/rebinLinear.cpp, rebinNgp.cpp, rebinSpline.cpp, rebinFineGrid.cpp"),
     ("error propagation and mask", L + "spectrum/rebin/rebin.cpp"),
     ("axis geometry", L + "spectrum/spectralaxis.cpp")])

add("P06", "Logarithmic resampling puts spectrum, templates and redshifts on one grid",
    "For any spectrum and redshift range, the logarithmic resampling used by the FFT fit gives a spectrum on a grid of constant step in log wavelength inside the observed range and templates on grids of the same step whose range covers every rest-frame wavelength the redshift range needs. "
    "The redshift range it returns starts at the requested one, is a whole number of steps in log(1+z), covers the requested range and exceeds it by less than one (coarse) step. "
    "Resampled values agree with the interpolated originals, whatever spectra were processed before.",
    ["inputs", "histories"], "all spectra, step ratios, redshift ranges and template ranges; sequences of spectra processed one after another",
    "The alignment of three grids must hold for all sizes and ratios; the tests check a single configuration.",
    [L + "spectrum/logrebinning.cpp", L + "processflow/inputcontext.cpp"],
    [("log rebinning", L + "spectrum/logrebinning.cpp"),
     ("context", L + "processflow/inputcontext.cpp: RebinInputs")])

add("P07", "Continuum and continuum-free spectrum always add up to the spectrum",
    "Whatever the continuum estimation method (median of a sliding window, raw, zero, or a supplied continuum), for every sample the raw flux equals continuum plus continuum-free flux, and errors are those of the input. "
    "The sliding-median continuum follows its definition - window width in wavelength, mirrored borders, several smoothing passes - and changes only samples inside the non-zero part of the spectrum. "
    "Switching the view among raw, continuum and continuum-free, or copying, extracting or resetting the spectrum in between, never changes the underlying data.",
    ["inputs", "histories"], "all spectra, methods and kernel widths; all sequences of view switches, copies and method changes",
    "The views are lazily computed and cached; the identity must survive every sequence of operations.",
    [L + "spectrum/spectrum.cpp", L + "continuum/irregularsamplingmedian.cpp", L + "continuum/median.cpp"],
    [("lazy views", L + "spectrum/spectrum.cpp: SetType, GetContinuumFluxAxis, GetWithoutContinuumFluxAxis"),
     ("median filter", L + "continuum/irregularsamplingmedian.cpp: RemoveContinuum, MedianSmooth, OddMirror, EvenMirror")])

add("P08", "Invalid samples never reach the fit, and valid ones are left untouched",
    "A spectrum is accepted only if its wavelengths are increasing and, in the range that is used, its flux is finite and not all zero and its errors are finite and strictly positive; otherwise it is refused with an error. "
    "When automatic correction is enabled, only invalid samples of the range are replaced: by the smallest absolute valid flux divided by the given coefficient, with an error of the largest valid error multiplied by it, and every valid sample keeps its exact value. "
    "Statistics computed on a masked or limited range use exactly the samples selected.",
    ["inputs"], "all spectra with any placement of NaN, infinities, zeros and negative errors, and all ranges",
    "Any position of an invalid sample (first, last, outside the range) must be handled.",
    [L + "spectrum/spectrum.cpp", L + "spectrum/noiseaxis.cpp", L + "spectrum/fluxaxis.cpp", L + "processflow/inputcontext.cpp"],
    [("validation", L + "spectrum/spectrum.cpp: ValidateSpectrum, ValidateFlux, ValidateNoise"),
     ("correction", L + "spectrum/fluxaxis.cpp: correctFluxAndNoiseAxis; " + L + "spectrum/spectrum.cpp: correctSpectrum"),
     ("statistics", L + "spectrum/fluxaxis.cpp")])

add("P09", "Template fitting returns the best chi-square over amplitude, dust and IGM",
    "At every redshift the chi-square returned by template fitting is the minimum, over all requested dust and IGM options and over the (constrained) amplitude, of the weighted squared difference between the observed spectra and the shifted template, and the returned amplitude, its error and the dust and IGM choices are the ones that reach it. "
    "Scaling data and errors by a constant scales amplitudes and leaves chi-squares unchanged, masked samples and samples outside the fitted ranges have no influence, and several observations of one source give the minimum of the summed chi-squares. "
    "A template that does not overlap the spectrum enough is refused with an error.",
    ["inputs"], "all spectra, templates, redshifts, masks, dust/IGM options, amplitude priors and numbers of observations",
    "The result is compared with an independent brute-force fit on every generated input; tests pin a few numbers.",
    [L + "operator/templatefitting.cpp", L + "operator/templatefittingBase.cpp"],
    [("least squares", L + "operator/templatefitting.cpp: BasicFit, ComputeLeastSquare, getLeastSquareFast"),
     ("options", L + "operator/templatefittingBase.cpp: ComputeSpectrumModel, RebinTemplate"),
     ("likelihood constant", L + "operator/templatefitting.cpp: EstimateLikelihoodCstLog")])

add("P10", "The FFT template fit agrees with the direct fit",
    "On spectra and templates sampled on a common logarithmic grid, the FFT-based template fit gives, at every redshift of the grid, the same chi-square, amplitude and dust choice as fitting the shifted template directly at that redshift, to numerical precision. "
    "This holds for every grid size and sub-sampling.",
    ["inputs"], "all log-sampled spectra, templates, redshift ranges, step ratios and dust options",
    "Zero padding, index offsets and sub-sampling in the convolution depend on all the sizes.",
    [L + "operator/templatefittinglog.cpp"],
    [("FFT cross-correlation", L + "operator/templatefittinglog.cpp: FitRangez, EstimateXtY, EstimateMtM"),
     ("interpolation of results", L + "operator/templatefittinglog.cpp: InterpolateResult")])

add("P11", "Template combination solves the linear least-squares problem",
    "At every redshift, fitting a combination of linearly independent templates returns the chi-square and amplitudes of the least-squares solution over the template coefficients, minimised over dust and IGM options, and adding a template never increases the chi-square. "
    "The returned covariance is the inverse of the normal matrix, and the model spectrum is the combination of the shifted templates with those amplitudes.",
    ["inputs"], "all spectra, template sets, redshifts and dust/IGM options",
    "Compared with an independent solver on generated inputs; tests pin one value.",
    [L + "operator/tplcombination.cpp"],
    [("SVD fit", L + "operator/tplcombination.cpp: BasicFit, fillTemplateAmplitudes"),
     ("model", L + "operator/tplcombination.cpp: ComputeSpectrumModel")])

add("P12", "Photometry enters the template fit as extra weighted samples",
    "The flux of a model through a photometric band is the transmission-weighted mean of the model in photon counting, so it is linear in the model, independent of the scale of the transmission curve and exact for a model with constant flux density. "
    "Fitting a template to a spectrum plus photometry returns the minimum of the summed chi-square with each band weighted by the square of the given weight, with the matching likelihood constant, and with weight zero it agrees with the fit without photometry.",
    ["inputs"], "all bands, spectra, templates, redshifts, weights, dust and IGM options",
    "The joint fit is compared with a brute-force fit; tests pin a single case.",
    [L + "photometry/photometricband.cpp", L + "photometry/photometricdata.cpp", L + "operator/templatefittingwithphot.cpp"],
    [("band integration", L + "photometry/photometricband.cpp: IntegrateFlux"),
     ("joint fit", L + "operator/templatefittingwithphot.cpp: ComputePhotCrossProducts, EstimateLikelihoodCstLog")])

add("P13", "Dust and IGM extinction follow their tabulated laws and can be undone",
    "Applying dust or IGM extinction to a template multiplies each sample by the tabulated coefficient for its rest-frame wavelength, redshift and option (one outside the tables), always in (0,1], decreasing with dust content; options can be applied in any order and number, and the result depends only on the last ones, never on earlier ones. "
    "Disabling extinction restores the original template exactly. "
    "IGM curves are convolved with the instrument response of the spectrum being processed, and not of an earlier one.",
    ["inputs", "histories"], "all tables, wavelengths, redshifts and option indices, and all sequences of apply / reset / rebin operations",
    "State left by an earlier option or spectrum is invisible to single-shot tests.",
    [L + "spectrum/fluxcorrectioncalzetti.cpp", L + "spectrum/fluxcorrectionmeiksin.cpp", L + "spectrum/template/template.cpp"],
    [("dust law", L + "spectrum/fluxcorrectioncalzetti.cpp"),
     ("IGM curves", L + "spectrum/fluxcorrectionmeiksin.cpp: getCorrection, convolveByLSF"),
     ("application", L + "spectrum/template/template.cpp: ApplyDustCoeff, ApplyMeiksinCoeff")],
    state=["m_correctedFluxAxis, m_computedDustCoeff, m_computedMeiksinCoeff of a template"])

add("P14", "The instrument response width follows its specification at every wavelength",
    "For every response type the line-spread width at a wavelength follows its definition (constant, wavelength over resolution, interpolated table, slit-less source-size law), is positive, and is refused outside the wavelengths where it is defined. "
    "The response profile integrates to one around any wavelength and the width of an observed line combines instrument and velocity broadening quadratically, as selected.",
    ["inputs"], "all response types, parameters and wavelengths",
    "Interpolation between tabulated widths and unit conversions must hold everywhere.",
    [L + "spectrum/LSF.cpp", L + "spectrum/LSFVariableWidth.cpp", L + "spectrum/LSFConstantResolution.cpp",
     L + "spectrum/LSF_NISPSIM_2016.cpp", L + "spectrum/LSF_NISPVSSPSF_201707.cpp"],
    [("width laws", L + "spectrum/LSF*.cpp: GetWidth"),
     ("profile vector", L + "spectrum/LSF.cpp: getNormalizedProfileVector, getRestFrameProfileVector")])

add("P15", "Line profiles, their integrals and their derivatives are consistent",
    "For each line profile the value is what its definition says, the reported total flux equals the numerical integral of the profile over wavelength, and the derivatives with respect to amplitude, position and width equal the numerical derivatives of the profile. "
    "Symmetric profiles are symmetric about the line centre, an asymmetric profile with zero asymmetry equals the symmetric one, and almost all of the flux lies within the stated support.",
    ["inputs"], "all profiles, positions, widths and asymmetry parameters",
    "Analytical derivatives drive the optimiser; they must be right for every argument.",
    [L + "line/lineprofileSYM.cpp", L + "line/lineprofileLOR.cpp", L + "line/lineprofileASYM.cpp",
     L + "line/lineprofileASYMFIT.cpp", L + "line/lineprofileSYMIGM.cpp"],
    [("profiles", L + "line/lineprofile*.cpp: GetLineProfileVal, GetLineFlux, GetLineProfileDerivX0, GetLineProfileDerivSigma")])

add("P16", "Vacuum-to-air conversion is monotonic and inverted by air-to-vacuum",
    "For every supported conversion formula and any wavelengths in its domain, air wavelengths are smaller than vacuum ones by a fraction between 2.5e-4 and 3.5e-4, the conversion preserves order, and converting to air and back gives the original wavelengths to the stated precision. "
    "Converting an array gives the same values as converting each element alone, and a spectrum built from air wavelengths has the converted vacuum axis.",
    ["inputs"], "all wavelengths and formulas",
    "The inverse is iterative: its convergence must hold for all wavelengths and arrays.",
    [L + "line/airvacuum.cpp", L + "spectrum/spectralaxis.cpp"],
    [("formulas and inversion", L + "line/airvacuum.cpp: AirToVac, VacToAir, AirRefractiveIndex")])

add("P17", "The fitted line model is the least-squares optimum of its lines",
    "For a spectrum and a line catalogue, the amplitudes of the lines minimise the weighted squared difference between the data (continuum removed) and the model on the samples of the lines: one element at a time (individual), all together (svd) or by groups of overlapping elements (hybrid). Amplitudes are not negative (elements found negative are set to zero and the others fitted again) and an absorption does not exceed the continuum; each amplitude error is the one given by the normal equations. "
    "A line whose support is outside the range in all observations has no amplitude, position, width and flux of the others are those of their profile at the redshift, and the number of fitted elements counts those with a positive amplitude. "
    "The model spectrum is the continuum plus the sum over lines of amplitude times profile on their supports, and the merit reported equals the weighted squared difference between data and model over all the samples of the fitted ranges of all observations. "
    "With line ratios, the ratio of lowest merit is retained, with its lines, amplitudes and model; with continuum templates, the continuum of lowest merit is, and its amplitude, dust and IGM are those of the fitted continuum. The flux of a line is the one of its profile, the directly integrated flux is the trapezoid integral of the data minus the continuum and the absorption lines, with the error that follows from the errors of the samples, and the fluxes of the complexes of lines are the sums over their lines. A solution loaded again gives the model it was stored with. Nothing of one fit shows in the next one of the same object, and scaling flux and errors scales emission amplitudes and leaves the merit unchanged.",
    ["inputs"], "all spectra, line catalogues, redshifts and line widths",
    "Overlapping lines, lines at the border and masked lines combine in many ways; tests fit one spectrum.",
    [L + "linemodel/linemodelfitting.cpp", L + "linemodel/element.cpp", L + "linemodel/elementlist.cpp",
     L + "linemodel/spectrummodel.cpp", L + "linemodel/svdfitter.cpp", L + "linemodel/individualfitter.cpp", L + "linemodel/hybridfitter.cpp"],
    [("amplitude fit", L + "linemodel/element.cpp; " + L + "linemodel/abstractfitter.cpp; " + L + "linemodel/svdfitter.cpp"),
     ("merit", L + "linemodel/linemodelfitting.cpp: getLeastSquareMerit"),
     ("model", L + "linemodel/spectrummodel.cpp: refreshModel")])

add("P18", "Line catalogues, line ratios and amplitude rules keep their physical constraints",
    "Every line read into a catalogue comes back unchanged and in exactly one group, filters return exactly the lines that match, and lines of one group keep their nominal amplitude ratios in the model. "
    "Fitting a catalogue of line ratios to measured amplitudes gives the scale that minimises the weighted squared difference, and prefers the catalogue with the smallest one. "
    "Applying an amplitude rule leaves the amplitudes satisfying it, changes nothing when it is already satisfied, and applying it twice is the same as once.",
    ["inputs"], "all catalogues, amplitudes, errors and rules",
    "Rules act on whichever lines are present; tests use one configuration each.",
    [L + "line/catalog.cpp", L + "line/line.cpp", L + "line/catalogsTplRatio.cpp", L + "line/regulament.cpp", L + "line/rule2singlelinesamplitude.cpp",
     L + "line/ruleStrongHigherThanWeak.cpp", L + "line/ruleSuperStrongHighest.cpp", L + "line/ruleOIIRatioRange.cpp"],
    [("catalogue", L + "line/catalog.cpp"), ("ratio fit", L + "line/catalogsTplRatio.cpp: GetBestFit"),
     ("rules", L + "line/rule*.cpp, " + L + "line/regulament.cpp")])

add("P19", "The template catalogue keeps its four views consistent through every update",
    "Templates added to the catalogue are found in the view (sampling, orthogonalisation) and category they were added to, in order of insertion, with the same name and content, and nowhere else. "
    "Clearing or replacing a template clears exactly the versions derived from it, and counts, look-ups by name and category lists stay consistent with the templates present after any sequence of operations.",
    ["histories"], "all sequences of add, set, clear and look-up operations over categories and the four views",
    "The state is a product of four lists whose entries are linked; only long histories reach the cascades.",
    [L + "spectrum/template/catalog.cpp"],
    [("views and cascades", L + "spectrum/template/catalog.cpp: Add, SetTemplate, ClearTemplates, ClearTemplateList")])

add("P20", "Parameters and results are looked up in exactly the scope they were stored in",
    "A parameter is read from the current scope, or, when asked, from the enclosing scope of a given type or depth, with its stored type and value; a missing one is an error and never another scope's value. "
    "A result stored under a spectrum model, stage, method and name is the one read back under the same address, per candidate where it has ranks, and stores of other scopes are unaffected. "
    "Scopes pushed are popped in reverse order even when an error interrupts the work.",
    ["histories", "inputs"], "all parameter trees and all sequences of scope pushes, pops, errors, stores and look-ups",
    "Scoped look-up depends on the whole stack; tests use a few fixed paths.",
    [L + "processflow/parameterstore.cpp", L + "processflow/scopestore.cpp", L + "processflow/scopestack.cpp",
     L + "processflow/autoscope.cpp", L + "processflow/resultstore.cpp"],
    [("scope stack", L + "processflow/scopestack.cpp, autoscope.cpp"), ("parameters", L + "processflow/parameterstore.cpp"),
     ("results", L + "processflow/resultstore.cpp")])

add("P21", "Classification is the normalised evidence of the spectrum models",
    "The probability of each spectrum model (galaxy, star, quasar) is its evidence divided by the sum of evidences, for any evidences however small or far apart, so probabilities are in [0,1] and sum to one. "
    "The class returned is the one with the largest evidence, and models that were not or could not be processed have no influence.",
    ["inputs"], "all evidences and all subsets of spectrum models",
    "Evidences differ by thousands in log; underflow must not break the normalisation.",
    [L + "method/classificationsolve.cpp", L + "method/classificationresult.cpp"],
    [("evidence normalisation", L + "method/classificationsolve.cpp: CClassificationSolve::compute")])

add("P22", "Parameter files are checked, converted and completed without losing information",
    "A version-1 parameter file is converted to the current form with every renamed or moved key carrying its original value, a version-2 file keeps all its values, and the input is never modified. "
    "Missing sections that have defaults are completed with them and nothing the user gave that is used is overwritten; accessors return exactly the stored values. "
    "A required section that is missing is refused, and a section that will not be used is flagged, for every combination of methods and options.",
    ["configurations", "inputs"], "all parameter trees: methods, stages, optional sections and values",
    "The checks are conditional on combinations of options; tests take them one by one.",
    [P + "Parameters.py", P + "ParametersConverter.py", P + "ParametersExtender.py", P + "ParametersChecker.py", P + "ParametersAccessor.py"],
    [("conversion", P + "ParametersConverter.py"), ("defaults", P + "ParametersExtender.py"), ("checks", P + "ParametersChecker.py"),
     ("lambda range", P + "Parameters.py: get_lambda_range_min, get_lambda_range_max")])

add("P23", "Readers deliver exactly the loaded samples, filtered, merged and in vacuum",
    "For any observations loaded through a reader, the spectra given to the pipeline contain exactly the samples that satisfy all filters, in order, with wavelength, flux and error of the same sample kept together. "
    "In merge mode all observations give one spectrum sorted by wavelength without duplicates and with no sample lost; in full mode each observation has its own spectrum; air wavelengths are converted to vacuum exactly when declared in air. "
    "Inconsistent inputs (different lengths or observation names, unknown filter columns) are refused.",
    ["inputs", "configurations"], "all observations, column sets, filter lists and multi-observation modes",
    "Sample identity across filtering and merging must hold for every arrangement of wavelengths.",
    [P + "AbstractSpectrumReader.py", P + "Filter.py", P + "FilterLoader.py", P + "Container.py"],
    [("filtering", P + "Filter.py: FilterList.apply"), ("merging", P + "AbstractSpectrumReader.py: _add_cspectra"),
     ("consistency checks", P + "AbstractSpectrumReader.py: init")])

add("P24", "Results written to file are the results of the run",
    "Every attribute and dataset available from the outputs is written to the HDF5 file under its object, candidate rank and dataset, and reads back equal in value, size and type; errors are written for the stage that failed and for every stage that depends on it. "
    "The posterior rebuilt from the written grid parameters and values is the one computed. "
    "Nothing that was not computed is written.",
    ["inputs", "configurations"], "all output contents: datasets, types, sizes, candidate counts, failed stages",
    "Writing depends on type and size of each dataset; tests write one fixed output.",
    [P + "H5Writer.py", P + "AbstractOutput.py", P + "ResultStoreOutput.py", P + "PdfHandler.py"],
    [("writer", P + "H5Writer.py"), ("loading from store", P + "AbstractOutput.py: load_all"), ("errors", P + "ResultStoreOutput.py: store_error"),
     ("posterior rebuild", P + "PdfHandler.py")])

add("P25", "Each source's result depends on that source alone",
    "Processing a source gives the same candidates, posteriors, models, classification and flags whether it is processed first, again, or after any other sources, including sources that failed. "
    "An error in one spectrum model or stage is recorded for that stage and the stages that depend on it, and the others are still processed. "
    "Scaling a source's flux and errors by a constant leaves its redshifts and probabilities unchanged.",
    ["histories", "fault_sequences"], "all sequences of sources, valid or not, processed by one pipeline instance",
    "The library keeps a global context; leaks between sources only show in sequences.",
    [P + "ProcessFlow.py", L + "processflow/context.cpp", L + "processflow/inputcontext.cpp", P + "ScopeManager.py",
     L + "spectrum/fluxcorrectionmeiksin.cpp"],
    [("per-source reset", L + "processflow/context.cpp: reset; " + P + "ProcessFlow.py: initialize"),
     ("error isolation", P + "ProcessFlow.py: store_exception_handler, run"),
     ("flags", L + "common/flag.cpp")])

add("P26", "Line detection and matching find the redshifts that explain the detected lines",
    "Peaks are detected exactly where the flux rises above the running median by the given multiple of the local deviation, and enlarged ranges stay inside the spectrum and around their peak. "
    "Line matching returns, for detected lines that are catalogue lines shifted by one redshift, a solution at that redshift containing all of them; each solution's lines agree on its redshift within the tolerance and have the requested minimal number, and all solutions are distinct.",
    ["inputs"], "all spectra, thresholds and sets of detected lines",
    "Combinatorial matching must hold for all subsets and tolerances.",
    [L + "operator/peakdetection.cpp", L + "operator/linedetection.cpp", L + "operator/linematching.cpp"],
    [("peak detection", L + "operator/peakdetection.cpp"), ("matching", L + "operator/linematching.cpp: Compute")])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(props))
