From c8cba51db617cab6258c9693c618ee89857bbb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 01/83] fix: do not read a step past the end of the list when
 converting a posterior to a fine regular grid

---
 RedshiftLibrary/src/lib/operator/logZPdfResult.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
index e6bbe00..5ec8cef 100644
--- a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
+++ b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
@@ -155,8 +155,6 @@ void CLogZPdfResult::convertToRegular(bool fine) {
   zstep.resize(1);
 
   auto param = getZGridParams()[0];
-  if (fine)
-    param.zstep = zstep[1];
   auto target_redshifts = param.getZGrid(logsampling);
 
   interpolateOnGrid(target_redshifts);
-- 
2.43.0


From f3e0c3ebb27c0b0a3e41e8b8c98010647756e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 02/83] fix: do not report a low flat end as a peak nor count
 low planks in the position of a later one

---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index b2d69b3..db5b634 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -361,14 +361,16 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
       cnt_plk = 0;
       continue;
     }
-    // Plank is getting larger
-    cnt_plk++;
+    // Plank is getting larger (only high planks are tracked)
+    if (plank)
+      cnt_plk++;
   }
 
   if (!m_allow_extrema_at_border)
     return result;
   // last element: check if plank is extended
-  if (godown(EndIndex - 1))
+  // (a flat end is a peak only if the signal was increasing before)
+  if (godown(EndIndex - 1) || (goflat(EndIndex - 1) && !plank))
     return result;
 
   cnt_plk += Int32(plank); // if no plank, cnt_plk+=0
-- 
2.43.0


From c5ad2f8951b7d67f6d832389815c80faa3c185ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 03/83] fix: sort the peaks again after the threshold cut,
 whose indexes were stale

---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index db5b634..0c53367 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -120,6 +120,7 @@ TPointList CExtremum::Find(const TFloat64List &xAxis, const TFloat64List &yAxis,
   Int32 keepMinN = 1;
   if (m_meritCut > 0.0 && maxX.size() > keepMinN) {
     Cut_Threshold(maxX, maxY, keepMinN);
+    SortIndexes(maxY); // the cut changed the indexes
   }
 
   // refine: eliminate very close candidates when possible.
-- 
2.43.0


From b009ba3664a1cd20c9deb57827f0053a2511621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 04/83] fix: linear rebin must not mark as valid the targets
 beyond the end of the range

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp
index 405389e..97dd934 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp
@@ -61,7 +61,7 @@ void CRebinLinear::rebin(CSpectrumFluxAxis &rebinedFluxAxis,
     // For each sample in the target spectrum that are in between two
     // continous source sample
     while (cursor < targetSpectralAxis.GetSamplesCount() &&
-           Xtgt[cursor] <= Xsrc[k + 1]) {
+           Xtgt[cursor] <= Xsrc[k + 1] && Xtgt[cursor] <= range.GetEnd()) {
       // perform linear interpolation of the flux
       Float64 xSrcStep = (Xsrc[k + 1] - Xsrc[k]);
       Float64 t = (Xtgt[cursor] - Xsrc[k]) / xSrcStep;
-- 
2.43.0


From 9103412641508b343538323b500e7b30da424364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 05/83] fix: fine grid rebin read a zero for the targets close
 to the last sample

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
index f2bd3f5..ada4560 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
@@ -110,11 +110,18 @@ void CRebinFineGrid::rebin(CSpectrumFluxAxis &rebinedFluxAxis,
   // sample, 20150801
   Int32 k = 0;
   Float64 lmin = m_spectrum.GetSpectralAxis()[0];
+  Float64 lmax =
+      m_spectrum.GetSpectralAxis()[m_spectrum.GetSampleCount() - 1];
+  // last node of the fine grid inside the spectrum (the next ones are zeros)
+  Int32 kLast = int((lmax - lmin) / m_dLambdaFineGrid);
+  if (lmin + kLast * m_dLambdaFineGrid > lmax)
+    kLast--;
   // For each sample in the target
   // spectrum
   while (cursor < targetSpectralAxis.GetSamplesCount() &&
          Xtgt[cursor] <= range.GetEnd()) {
     k = int((Xtgt[cursor] - lmin) / m_dLambdaFineGrid + 0.5);
+    k = std::min(k, kLast);
     rebinedFluxAxis[cursor] = m_pfgFlux[k];
     rebinedMask[cursor] = 1;
 
-- 
2.43.0


From fd1db47c677003c6e27a25abb92675a3024423e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 06/83] fix: do not read before the only target sample in the
 step compensation of the rebinned noise

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
index 3d96da3..60bb087 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
@@ -102,6 +102,8 @@ Float64 CRebin::computeXStepCompensation(
     const TAxisSampleList &Xtgt, Int32 cursor, Float64 xSrcStep) {
   Float64 xDestStep = NAN;
   Float64 xStepCompensation = 1.;
+  if (targetSpectralAxis.GetSamplesCount() < 2)
+    return xStepCompensation; // no target step
   if (cursor < targetSpectralAxis.GetSamplesCount() - 1) {
     xDestStep = Xtgt[cursor + 1] - Xtgt[cursor];
     xStepCompensation = xSrcStep / xDestStep;
-- 
2.43.0


From afa52fd8abc150374bc1fb125c56f0890e80917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 07/83] fix: reset the precomputed fine grid when the spectrum
 or the interpolation changes

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp         | 1 +
 RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp | 3 ++-
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp            | 4 ++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
index 60bb087..ec1e007 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
@@ -115,6 +115,7 @@ Float64 CRebin::computeXStepCompensation(
 }
 
 std::unique_ptr<CRebin> CRebin::convert(const std::string opt_interp) && {
+  reset(); // nothing precomputed is kept across a conversion
   if (opt_interp == "lin")
     return std::unique_ptr<CRebin>(new CRebinLinear(std::move(*this)));
   if (opt_interp == "preComputedFineGrid")
diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
index ada4560..7848d4b 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
@@ -60,9 +60,10 @@ void CRebinFineGrid::rebinFineGrid() {
   Float64 lmax = spectralAxis[n - 1];
   Int32 nTgt = (lmax - lmin) / m_dLambdaFineGrid + 2.0 / m_dLambdaFineGrid;
 
+  // may estimate the continuum, which resets the fine grid
+  const TAxisSampleList &Ysrc = m_spectrum.GetFluxAxis().GetSamplesVector();
   m_pfgFlux.resize(nTgt);
 
-  const TAxisSampleList &Ysrc = m_spectrum.GetFluxAxis().GetSamplesVector();
   const TAxisSampleList &Xsrc = spectralAxis.GetSamplesVector();
 
   // Initialize and allocate the gsl objects
diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 09197c3..4f041e3 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -204,6 +204,7 @@ void CSpectrum::SetSpectralAxis(const CSpectrumSpectralAxis &spectralaxis) {
            "CSpectrum::SetSpectralAxis: new spectral axis has "
            "not the same size than flux axis");
   }
+  m_rebin->reset();
   m_SpectralAxis = spectralaxis;
 }
 
@@ -213,6 +214,7 @@ void CSpectrum::SetSpectralAxis(CSpectrumSpectralAxis &&spectralaxis) {
            "CSpectrum::SetSpectralAxis: new spectral axis has "
            "not the same size than flux axis");
   }
+  m_rebin->reset();
   m_SpectralAxis = std::move(spectralaxis);
 }
 
@@ -285,6 +287,7 @@ void CSpectrum::InitSpectrumContinuum(CParameterStore &parameterStore) {
 
 void CSpectrum::ResetContinuum() const {
   alreadyRemoved = false;
+  m_rebin->reset();
 
   m_ContinuumFluxAxis.clear();
   m_WithoutContinuumFluxAxis.clear();
@@ -346,6 +349,7 @@ bool CSpectrum::InvertFlux() {
     m_ContinuumFluxAxis.Invert();
     m_WithoutContinuumFluxAxis.Invert();
   }
+  m_rebin->reset();
   return true;
 }
 
-- 
2.43.0


From 633f3bd6c26320001641dfdcaae9bdbc3562057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 08/83] fix: templates misaligned towards longer wavelengths
 must be log-rebinned again

---
 RedshiftLibrary/src/lib/spectrum/logrebinning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index 3eaa3ae..d4d8510 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -295,7 +295,7 @@ bool CSpectrumLogRebinning::checkTemplateAlignment(
   const TAxisSampleList &w = tpl->GetSpectralAxis().GetSamplesVector();
   const Float64 &lstart = lambdaRange_tpl.GetBegin();
   Int32 idx = CIndexing<Float64>::getCloserIndex(w, lstart);
-  return (lstart - w[idx]) / w[idx] <= 2E-7;
+  return std::abs(lstart - w[idx]) / w[idx] <= 2E-7;
 }
 
 TFloat64Range CSpectrumLogRebinning::logRebinTemplateCatalog(
-- 
2.43.0


From 93b786b15ede4013e151c447daaf59e814800847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 09/83] fix: the redshift ranges of the log rebinning must be
 those of the current spectrum

---
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 6d113e1..3a2093a 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -131,7 +131,7 @@ void CInputContext::RebinInputs() {
     for (std::string cat : m_categories) {
       if (fft_processing[cat]) {
         zrange = logReb.logRebinTemplateCatalog(cat);
-        m_logRebin.insert({cat, SRebinResults{zrange}});
+        m_logRebin[cat] = SRebinResults{zrange};
       }
     }
     // Initialize rebinned clamped lambda range
@@ -246,6 +246,7 @@ void CInputContext::resetSpectrumSpecific() {
   m_constSpectra.clear();
   m_rebinnedSpectra.clear();
   m_constRebinnedSpectra.clear();
+  m_logRebin.clear();
   m_lambdaRanges.clear();
   m_rebinnedClampedLambdaRanges.clear();
   m_clampedLambdaRanges.clear();
-- 
2.43.0


From 3bf05ce17c966fdb610b555e7851adb8f10c3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 10/83] fix: a failed log rebinning must not leave a partial
 list of templates

---
 RedshiftLibrary/src/lib/spectrum/logrebinning.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index d4d8510..7f40ff5 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -369,11 +369,14 @@ TFloat64Range CSpectrumLogRebinning::logRebinTemplateCatalog(
         std::const_pointer_cast<const CTemplateCatalog>(tplcat)
             ->GetTemplateList(TStringList{spectrumModel});
     tplcat->m_logsampling = true;
-    for (auto tpl : TplList) {
-      std::shared_ptr<CTemplate> rebinnedTpl =
-          loglambdaRebinTemplate(tpl, lambdaRange_tpl, loglambda_count_tpl);
+    // add them only when all are rebinned, since a partial list would not be
+    // completed at the next spectrum
+    TTemplateRefList rebinnedTplList;
+    for (auto tpl : TplList)
+      rebinnedTplList.push_back(
+          loglambdaRebinTemplate(tpl, lambdaRange_tpl, loglambda_count_tpl));
+    for (auto const &rebinnedTpl : rebinnedTplList)
       tplcat->Add(rebinnedTpl);
-    }
   }
   tplcat->m_logsampling = false;
 
-- 
2.43.0


From 056c0ce5e9f725f353bca6ffd54d3990a65584aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 11/83] fix: log rebinning refused spectra and templates
 starting right at the target range

---
 RedshiftLibrary/src/lib/spectrum/logrebinning.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index 7f40ff5..4fb103f 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -173,6 +173,8 @@ std::shared_ptr<CSpectrum> CSpectrumLogRebinning::loglambdaRebinSpectrum(
   TFloat64Range spcLbdaRange(targetSpectralAxis[0] - 0.5 * m_logGridStep,
                              targetSpectralAxis[loglambda_count_spc - 1] +
                                  0.5 * m_logGridStep);
+  // the target can begin (or end) right on the first (last) sample
+  spcLbdaRange.IntersectWith(spectrum.GetLambdaRange());
 
   // rebin the spectrum
   spectrum.setRebinInterpMethod(m_rebinMethod);
@@ -267,6 +269,8 @@ std::shared_ptr<CTemplate> CSpectrumLogRebinning::loglambdaRebinTemplate(
   TFloat64Range tplLbdaRange(targetSpectralAxis[0] - 0.5 * m_logGridStep,
                              targetSpectralAxis[loglambda_count_tpl - 1] +
                                  0.5 * m_logGridStep);
+  // the target can begin (or end) right on the first (last) sample
+  tplLbdaRange.IntersectWith(tpl->GetLambdaRange());
 
   tpl->setRebinInterpMethod(m_rebinMethod);
   tpl->Rebin(tplLbdaRange, targetSpectralAxis, *templateRebinedLog,
-- 
2.43.0


From 6d880a33d3cc9c64329ec67e0d996062c0eb43f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 12/83] fix: median continuum was NaN or aborted for windows of
 a few samples

---
 .../src/lib/continuum/irregularsamplingmedian.cpp         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
index e95f33e..74cbdd4 100644
--- a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
+++ b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
@@ -305,8 +305,8 @@ bool CContinuumIrregularSamplingMedian::ProcessRemoveContinuum(
   // lenght("effective spectrum")=nd
 
   // set the reflection size
-  const Int32 nreflex =
-      boost::algorithm::clamp(round(nd / 2.0), 10.0, 5.0 * meanSmoothAmplitude);
+  const Int32 nreflex = boost::algorithm::clamp(
+      round(nd / 2.0), 10.0, max(10.0, 5.0 * meanSmoothAmplitude));
 
   // declare extend vector array
   TFloat64List ysmoobig;
@@ -351,8 +351,8 @@ bool CContinuumIrregularSamplingMedian::ProcessRemoveContinuum(
 
   {
     // mean smoothing
-    // mean smooth size=meanSmoothAmplitude/4
-    ysmoobig = MeanSmooth(ysmoobig, (Int32)meanSmoothAmplitude / 4);
+    // mean smooth size=meanSmoothAmplitude/4 (at least one sample)
+    ysmoobig = MeanSmooth(ysmoobig, max(1, meanSmoothAmplitude / 4));
   }
 
   // Copy spectrum before k0
-- 
2.43.0


From a8226ef64002556adfbf37e3f95404c394ffc170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 13/83] fix: odd-reflection median continuum recursed endlessly
 outside the raw view

---
 RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
index 74cbdd4..ab49fa0 100644
--- a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
+++ b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
@@ -191,9 +191,13 @@ Float64 CContinuumIrregularSamplingMedian::FitBorder(const CSpectrum &s,
 
   TFloat64Range range = TFloat64Range(spectralAxis[kstart], spectralAxis[kend]);
 
+  // the fit is on the raw flux, whatever the current view of the spectrum
+  const CSpectrum::EType type = s.GetType();
+  s.SetType(CSpectrum::EType::nType_raw);
   Float64 a;
   Float64 b;
   bool ret = s.GetLinearRegInRange(range, a, b);
+  s.SetType(type);
   Int32 k = isRightBorder ? kend : kstart;
   Float64 fitValue = ret ? spectralAxis[k] * a + b : fluxAxis[k];
 
-- 
2.43.0


From 42df6c133d2fe29322d62a533468b4216fa8d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 14/83] fix: raw continuum method dropped the errors of the
 continuum-free flux

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 4f041e3..d796bec 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -320,6 +320,7 @@ void CSpectrum::EstimateContinuum() const {
     for (Int32 k = 0; k < nbSamples; k++) {
       m_WithoutContinuumFluxAxis[k] = 0.0;
     }
+    m_WithoutContinuumFluxAxis.setError(m_RawFluxAxis.GetError());
   } else if (m_estimationMethod == "zero") {
     m_WithoutContinuumFluxAxis = m_RawFluxAxis;
   } else if (m_estimationMethod == "manual") {
-- 
2.43.0


From e0f9fbeeb0438c90679b73bea425a3ad55b9b22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 15/83] fix: assigning a spectrum lost its photometry and
 observation name

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index d796bec..d4181a9 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -168,6 +168,8 @@ CSpectrum &CSpectrum::operator=(const CSpectrum &other) {
   SetType(m_spcType);
 
   m_LSF = other.m_LSF;
+  m_photData = other.m_photData;
+  m_obsId = other.m_obsId;
 
   m_estimationMethod = other.m_estimationMethod;
   m_medianWindowSize = other.m_medianWindowSize;
@@ -187,6 +189,8 @@ CSpectrum &CSpectrum::operator=(CSpectrum &&other) {
   SetType(m_spcType);
 
   m_LSF = std::move(other.m_LSF);
+  m_photData = std::move(other.m_photData);
+  m_obsId = std::move(other.m_obsId);
 
   m_estimationMethod = std::move(other.m_estimationMethod);
   m_medianWindowSize = other.m_medianWindowSize;
-- 
2.43.0


From 2f4f13ad9a8b09f0be8b126a884bcd37ee6914d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 16/83] fix: a supplied continuum was ignored by changes made
 before its first use

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index d4181a9..37f1bdc 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -607,6 +607,7 @@ void CSpectrum::SetContinuumEstimationMethod(
   }
 
   m_ContinuumFluxAxis = ContinuumFluxAxis;
+  EstimateContinuum();
 }
 
 void CSpectrum::setRebinInterpMethod(const std::string &opt_interp) const {
-- 
2.43.0


From bf776f777d3cb3099693c170b0c842689c748c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 17/83] fix: the last sample of the range was neither validated
 nor corrected

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 37f1bdc..095b4b7 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -455,6 +455,8 @@ void CSpectrum::ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const {
 
   Int32 iMin = m_SpectralAxis.GetIndexAtWaveLength(LambdaMin);
   Int32 iMax = m_SpectralAxis.GetIndexAtWaveLength(LambdaMax);
+  // one past the last sample of the range
+  const Int32 iEnd = iMax + Int32(m_SpectralAxis[iMax] <= LambdaMax);
   Log.LogDetail(Formatter()
                 << "CSpectrum::ValidateFlux - checking on the configured "
                    "lambdaRange = ("
@@ -469,7 +471,7 @@ void CSpectrum::ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const {
 
   // check flux
   TBoolList validSamples = flux.checkFlux();
-  for (Int32 i = iMin; i < iMax; i++) {
+  for (Int32 i = iMin; i < iEnd; i++) {
     // collect invalid values
     if (!validSamples[i]) {
       ++nInvalid;
@@ -505,6 +507,8 @@ void CSpectrum::ValidateNoise(Float64 LambdaMin, Float64 LambdaMax) const {
   const TFloat64List &error = GetFluxAxis().GetError().GetSamplesVector();
   Int32 iMin = m_SpectralAxis.GetIndexAtWaveLength(LambdaMin);
   Int32 iMax = m_SpectralAxis.GetIndexAtWaveLength(LambdaMax);
+  // one past the last sample of the range
+  const Int32 iEnd = iMax + Int32(m_SpectralAxis[iMax] <= LambdaMax);
   Log.LogDetail(Formatter()
                 << "CSpectrum::ValidateNoise - checking on the configured "
                    "lambdaRange = ("
@@ -518,7 +522,7 @@ void CSpectrum::ValidateNoise(Float64 LambdaMin, Float64 LambdaMax) const {
 
   // check noise
   TBoolList validSamples = GetFluxAxis().GetError().checkNoise();
-  for (Int32 i = iMin; i < iMax; i++) {
+  for (Int32 i = iMin; i < iEnd; i++) {
     if (!validSamples[i]) {
       ++nInvalid;
       invalidElements[to_string(error[i])]++;
@@ -545,9 +549,11 @@ bool CSpectrum::correctSpectrum(Float64 LambdaMin, Float64 LambdaMax,
 
   Int32 iMin = m_SpectralAxis.GetIndexAtWaveLength(LambdaMin);
   Int32 iMax = m_SpectralAxis.GetIndexAtWaveLength(LambdaMax);
+  // one past the last sample of the range
+  const Int32 iEnd = iMax + Int32(m_SpectralAxis[iMax] <= LambdaMax);
 
   bool corrected =
-      GetFluxAxis_().correctFluxAndNoiseAxis(iMin, iMax, coeffCorr);
+      GetFluxAxis_().correctFluxAndNoiseAxis(iMin, iEnd, coeffCorr);
 
   if (corrected)
     ResetContinuum();
-- 
2.43.0


From 6668a20191505d22dee32f369c2e7b48a20b0cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 18/83] fix: keep the prior redshift index inside the table
 above its last bin

---
 RedshiftLibrary/src/lib/statistics/priorhelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/statistics/priorhelper.cpp b/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
index 45644b6..6365e9a 100644
--- a/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
+++ b/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
@@ -414,7 +414,7 @@ Int32 CPriorHelper::getRedshiftIndex(Float64 redshift,
   }
   if (outsideZRangeExtensionMode == 0) {
     idz = std::max(idz, 0);
-    idz = std::min(idz, m_nZ);
+    idz = std::min(idz, m_nZ - 1);
   }
   return idz;
 }
-- 
2.43.0


From 242e58621dfbcee228fcdd217c7fc52c32023611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 19/83] fix: use the first prior when dust is not fitted,
 instead of reading before the list

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index df1c61c..bf01bff 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -164,7 +164,7 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
       }
 
       const CPriorHelper::SPriorTZE &logpriorTZE =
-          apply_priore ? logpriore[kEbmv] : logpriorTZEempty;
+          apply_priore ? logpriore[std::max(kEbmv, 0)] : logpriorTZEempty;
       TFittingResult fitRes;
       for (Int32 spcIndex = 0; spcIndex < m_spectra.size(); spcIndex++) {
         fitRes.cross_result +=
-- 
2.43.0


From 5071353c77ffe3b93910eadb30b476692d546ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 20/83] fix: do not ask for the IGM range when the wavelengths
 are above it

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index bf01bff..547f1b3 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -86,7 +86,6 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
 
   Int32 EbmvListSize = EbmvList.size();
   Int32 MeiksinListSize = MeiksinList.size();
-  m_option_igmFastProcessing = (MeiksinListSize > 1 ? true : false);
 
   bool apply_priore =
       !logpriore.empty() && !tpl->CalzettiInitFailed() &&
@@ -110,6 +109,7 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
 
   if (opt_extinction)
     opt_extinction = igmIsInRange(currentRanges);
+  m_option_igmFastProcessing = opt_extinction && MeiksinListSize > 1;
 
   if (opt_dustFitting || opt_extinction) {
     for (Int32 spcIndex = 0; spcIndex < m_spectra.size(); spcIndex++) {
-- 
2.43.0


From f6cff6a2c2fe9cd6b7af4adb961c6219cfcf27b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 21/83] fix: do not count samples twice when the whole range is
 within the IGM

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index 547f1b3..28d6232 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -290,6 +290,11 @@ TCrossProductResult COperatorTemplateFitting::ComputeCrossProducts(
 
   if (m_option_igmFastProcessing) {
     if (kM == 0) {
+      if (!sumsIgmSaved) { // no sample outside IGM range
+        sumCross_IGM = sumCross;
+        sumT_IGM = sumT;
+        sumS_IGM = sumS;
+      }
       m_sumCross_outsideIGM[spcIndex][kEbmv_] = sumCross - sumCross_IGM;
       m_sumT_outsideIGM[spcIndex][kEbmv_] = sumT - sumT_IGM;
       m_sumS_outsideIGM[spcIndex][kEbmv_] = sumS - sumS_IGM;
-- 
2.43.0


From d29ba33afa810574f653e31a19d36e0a613ee904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 22/83] fix: FFT template fit without IGM refused when the grid
 starts below the first IGM curve

---
 RedshiftLibrary/src/lib/operator/templatefittinglog.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
index 8e83cf2..4262b91 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
@@ -758,9 +758,11 @@ Int32 COperatorTemplateFittingLog::FitRangez(
 
   // note that there is no need to copy the ism/igm cause they already exist in
   // the rebinned template
+  // (without IGM, the first redshift of the range may have no IGM curve)
   if (m_enableIGM || m_enableISM) {
-    m_templateRebined_bf[0].InitIsmIgmConfig(kstart, kend,
-                                             redshiftValueMeiksin);
+    m_templateRebined_bf[0].InitIsmIgmConfig(
+        kstart, kend,
+        enableIGM ? redshiftValueMeiksin : result->Redshifts.back());
   }
   for (Int32 kIGM = 0; kIGM < nIGM; kIGM++) {
     if (enableIGM) {
-- 
2.43.0


From af77260fb973982ecc73852e810d2bdc2173f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 23/83] fix: FFT template fit read out of bounds when two IGM
 limits fall in one redshift step

---
 RedshiftLibrary/src/lib/operator/templatefittinglog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
index 4262b91..c74780a 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
@@ -391,7 +391,9 @@ COperatorTemplateFittingLog::FindZRanges(const TFloat64List &redshifts) {
           break;
         Int32 iz = -1;
         TFloat64Index::getClosestLowerIndex(redshifts, z, iz);
-        zsplit.push_back(iz);
+        // several limits in the same redshift step: only one split
+        if (zsplit.empty() || zsplit.back() != iz)
+          zsplit.push_back(iz);
       }
     }
 
-- 
2.43.0


From 06417c5d5c20fb8019f3b9f5255e065244e073e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 24/83] fix: template combination of a single template failed
 on its log message

---
 .../src/lib/operator/tplcombination.cpp          | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 7c7d479..931378e 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -283,13 +283,15 @@ void COperatorTplcombination::BasicFit(
 
 #define C(i) (gsl_vector_get(c, (i)))
 #define COV(i, j) (gsl_matrix_get(cov, (i), (j)))
-      Log.LogDebug(Formatter() << "# best fit: Y = " << C(0) << " X1 + " << C(1)
-                               << " X2 ...");
-      Log.LogDebug(Formatter() << "# covariance matrix:");
-      Log.LogDebug(Formatter() << "[");
-      Log.LogDebug(Formatter() << "  " << COV(0, 0) << ", " << COV(0, 1));
-      Log.LogDebug(Formatter() << "  " << COV(1, 0) << "," << COV(1, 1));
-      Log.LogDebug(Formatter() << "]");
+      if (nddl > 1) {
+        Log.LogDebug(Formatter() << "# best fit: Y = " << C(0) << " X1 + "
+                                 << C(1) << " X2 ...");
+        Log.LogDebug(Formatter() << "# covariance matrix:");
+        Log.LogDebug(Formatter() << "[");
+        Log.LogDebug(Formatter() << "  " << COV(0, 0) << ", " << COV(0, 1));
+        Log.LogDebug(Formatter() << "  " << COV(1, 0) << "," << COV(1, 1));
+        Log.LogDebug(Formatter() << "]");
+      }
       Log.LogDebug(Formatter() << "# chisq/n = " << chisq / n);
 
       for (Int32 iddl = 0; iddl < nddl; iddl++) {
-- 
2.43.0


From b4eeed06ae61113b533a186ec3564e196e769983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 25/83] fix: template combination covariance left in the
 normalised flux units

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 931378e..cc9fd50 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -319,7 +319,8 @@ void COperatorTplcombination::BasicFit(
       // save covariance matrix into MtM
       for (Int32 iddl = 0; iddl < nddl; iddl++) {
         for (Int32 iddc = 0; iddc < nddl; iddc++) {
-          fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
+          fittingResults.COV[iddl][iddc] =
+              COV(iddl, iddc) * normFactor * normFactor;
         }
       }
       if (fittingResults.fittingAmplitudes.size() != nddl) {
-- 
2.43.0


From e679e0af0b4c4ea9b6d7d6b287e40d59211dff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 26/83] fix: template combination returned the amplitudes of
 the last extinction option, not of the best one

---
 .../src/lib/operator/tplcombination.cpp       | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index cc9fd50..03a3d78 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -301,38 +301,37 @@ void COperatorTplcombination::BasicFit(
       }
 
       // save the fitted amps and fitErrors, etc...
+      TFloat64List amplitudes(nddl), amplitudeErrors(nddl),
+          amplitudeSigmas(nddl);
+      std::vector<TFloat64List> covariance(nddl, TFloat64List(nddl));
       Float64 a, err2, err, sA = 0, sE = 0;
       for (Int32 iddl = 0; iddl < nddl; iddl++) {
         a = gsl_vector_get(c, iddl);
-        fittingResults.fittingAmplitudes[iddl] = a * normFactor;
+        amplitudes[iddl] = a * normFactor;
         err2 = COV(iddl, iddl);
         err = std::sqrt(err2);
-        fittingResults.fittingAmplitudeErrors[iddl] = err * normFactor;
-        fittingResults.fittingAmplitudeSigmas[iddl] = a / err;
+        amplitudeErrors[iddl] = err * normFactor;
+        amplitudeSigmas[iddl] = a / err;
         sA += a * a;
         sE += err2;
       }
       SNR = std::sqrt(sA / sE);
       fittingResults.fittingAmplitudesInterm[kEbmv_][kigm] =
-          fittingResults.fittingAmplitudes; // saving
+          amplitudes; // saving
 
       // save covariance matrix into MtM
       for (Int32 iddl = 0; iddl < nddl; iddl++) {
         for (Int32 iddc = 0; iddc < nddl; iddc++) {
-          fittingResults.COV[iddl][iddc] =
-              COV(iddl, iddc) * normFactor * normFactor;
+          covariance[iddl][iddc] = COV(iddl, iddc) * normFactor * normFactor;
         }
       }
-      if (fittingResults.fittingAmplitudes.size() != nddl) {
-        Log.LogDebug(Formatter() << " Found nfittedamps(="
-                                 << fittingResults.fittingAmplitudes.size()
-                                 << ") "
-                                    "different than nddl(="
-                                 << nddl << ")");
-      }
 
       if (chisq < fittingResults.chiSquare) {
         fittingResults.chiSquare = chisq;
+        fittingResults.fittingAmplitudes = amplitudes;
+        fittingResults.fittingAmplitudeErrors = amplitudeErrors;
+        fittingResults.fittingAmplitudeSigmas = amplitudeSigmas;
+        fittingResults.COV = covariance;
         fittingResults.SNR = SNR;
         fittingResults.MeiksinIdx =
             igmCorrectionAppliedOnce ? meiksinIdx : undefIdx;
-- 
2.43.0


From 32806f57e8848492aea2f2f57c9e3d45abddb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 27/83] fix: template combination model was given at
 wavelengths shifted twice by the redshift

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 03a3d78..e3b4a5c 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -654,8 +654,6 @@ COperatorTplcombination::ComputeSpectrumModel(
       modelFlux[k] += amplitudes[iddl] * tmp[k] * extinction[k];
     }
   }
-  modelSpcAxis.ShiftByWaveLength((1.0 + redshift),
-                                 CSpectrumSpectralAxis::nShiftForward);
 
   // Deallocate the rebined template and mask buffers
   m_templatesRebined_bf.clear();
-- 
2.43.0


From ec83d59e4f44782d859cbc3fef5b2f104b36dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 28/83] fix: photometric bands were counted twice when all of
 them are within the IGM

---
 RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
index 536c7e2..0e82747 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
@@ -296,6 +296,11 @@ void COperatorTemplateFittingPhot::ComputePhotCrossProducts(
 
   if (m_option_igmFastProcessing) {
     if (kM == 0) {
+      if (!sumsIgmSaved) { // no band outside IGM range
+        sumCross_IGM = sumCross_phot;
+        sumT_IGM = sumT_phot;
+        sumS_IGM = sumS_phot;
+      }
       m_sumCross_outsideIGM_phot[kEbmv_] = sumCross_phot - sumCross_IGM;
       m_sumT_outsideIGM_phot[kEbmv_] = sumT_phot - sumT_IGM;
       m_sumS_outsideIGM_phot[kEbmv_] = sumS_phot - sumS_IGM;
-- 
2.43.0


From ba5bbef2af582a0daa1c71a8e614b4980b1f4075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 29/83] fix: likelihood constant of the photometry had the
 noise term with the wrong sign and weight

---
 .../src/lib/operator/templatefittingwithphot.cpp           | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
index 0e82747..7067542 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
@@ -320,14 +320,17 @@ void COperatorTemplateFittingPhot::ComputePhotCrossProducts(
 Float64 COperatorTemplateFittingPhot::EstimateLikelihoodCstLog() const {
 
   Float64 cstlog = COperatorTemplateFitting::EstimateLikelihoodCstLog();
+  if (m_weight == 0.0) // photometry has no influence
+    return cstlog;
+
   auto spectrum = m_spectra[0];
   Float64 sumLogNoise = 0.0;
   const auto &photData = spectrum->GetPhotData();
   for (const auto &b : *m_photBandCat) {
     const std::string &bandName = b.first;
-    sumLogNoise += log(photData->GetFluxErr(bandName) * m_weight);
+    sumLogNoise += log(photData->GetFluxErr(bandName) / m_weight);
   }
-  cstlog -= m_photBandCat->size() * 0.5 * log(2 * M_PI) - sumLogNoise;
+  cstlog -= m_photBandCat->size() * 0.5 * log(2 * M_PI) + sumLogNoise;
 
   return cstlog;
 }
-- 
2.43.0


From 7b1d485f96db0ea2d46e2fd94ce6bfcdf11f6d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 30/83] fix: IGM convolved only for the first observation and
 never again for the LSF of later sources

---
 .../spectrum/fluxcorrectionmeiksin.h          |  7 ++++
 .../src/lib/processflow/inputcontext.cpp      | 19 +++++++---
 .../lib/spectrum/fluxcorrectionmeiksin.cpp    | 37 +++++++++++++++++++
 3 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h b/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
index da05e50..88a6634 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
@@ -70,7 +70,13 @@ public:
 
   void convolveByLSF(const std::shared_ptr<const CLSF> &lsf,
                      const TFloat64Range &lambdaRange);
+  void convolveByLSF(const std::vector<std::shared_ptr<const CLSF>> &lsfs,
+                     const TFloat64RangeList &lambdaRanges);
   bool isConvolved() { return m_convolved; };
+  // convolution done for these ranges
+  bool isConvolved(const TFloat64RangeList &lambdaRanges) const {
+    return m_convolved && m_convolRanges == lambdaRanges;
+  };
   Int32 getIdxCount() const {
     return m_rawCorrections[0].fluxcorr.size();
   }; // harcoded value from the number of cols in the ascii files
@@ -119,6 +125,7 @@ private:
   Int32 m_LambdaSize = -1;
   Int32 m_fineLambdaSize = -1;
   TFloat64Range m_convolRange;
+  TFloat64RangeList m_convolRanges; // one per observation
   bool m_convolved = false;
   Float64 m_finegridstep = IGM_RAW_STEP / IGM_OVERSAMPLING;
 };
diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 3a2093a..c45185f 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -211,12 +211,21 @@ void CInputContext::Init() {
        boost::combine(m_spectra, m_lambdaRanges)) {
     spectrum_ptr->ValidateSpectrum(*lambdaRange_ptr, enableInputSpcCorrect);
     spectrum_ptr->InitSpectrumContinuum(*m_ParameterStore);
-    // convolve IGM by LSF
+  }
 
-    if (!m_igmcorrectionMeiksin->isConvolved() ||
-        m_ParameterStore->Get<std::string>("lsf.lsfType") == "fromSpectrumData")
-      m_igmcorrectionMeiksin->convolveByLSF(spectrum_ptr->GetLSF(),
-                                            *lambdaRange_ptr);
+  // convolve IGM by LSF
+  TFloat64RangeList ranges;
+  for (auto const &lambdaRange_ptr : m_lambdaRanges)
+    ranges.push_back(*lambdaRange_ptr);
+  if (!m_spectra.empty() &&
+      (!m_igmcorrectionMeiksin->isConvolved(ranges) ||
+       m_ParameterStore->Get<std::string>("lsf.lsfType") ==
+           "fromSpectrumData")) {
+    std::vector<std::shared_ptr<const CLSF>> lsfs;
+    for (auto const &spectrum_ptr : m_spectra)
+      lsfs.push_back(spectrum_ptr->GetLSF() ? spectrum_ptr->GetLSF()
+                                            : m_spectra.front()->GetLSF());
+    m_igmcorrectionMeiksin->convolveByLSF(lsfs, ranges);
   }
 
   // insert extinction correction objects if needed
diff --git a/RedshiftLibrary/src/lib/spectrum/fluxcorrectionmeiksin.cpp b/RedshiftLibrary/src/lib/spectrum/fluxcorrectionmeiksin.cpp
index 2514eca..8c517fd 100644
--- a/RedshiftLibrary/src/lib/spectrum/fluxcorrectionmeiksin.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/fluxcorrectionmeiksin.cpp
@@ -272,3 +272,40 @@ void CSpectrumFluxCorrectionMeiksin::convolveByLSF(
   m_convolved = true;
   return;
 }
+
+/**
+ * convolve from scratch with the LSF of each observation inside its own range
+ * (the first one where they overlap)
+ */
+void CSpectrumFluxCorrectionMeiksin::convolveByLSF(
+    const std::vector<std::shared_ptr<const CLSF>> &lsfs,
+    const TFloat64RangeList &convolRanges) {
+
+  std::vector<MeiksinCorrection> merged(m_rawCorrections.size());
+
+  for (Int32 obs = Int32(lsfs.size()) - 1; obs >= 0; obs--) {
+    m_corrections.clear();
+    convolveByLSF(lsfs[obs], convolRanges[obs]);
+
+    for (std::size_t i = 0; i < m_corrections.size(); i++) {
+      auto &curves = merged[i].fluxcorr;
+      if (merged[i].lbda.empty()) {
+        merged[i] = m_corrections[i];
+        continue;
+      }
+
+      TFloat64Range convRange_rest(
+          m_convolRange.GetBegin() / (1 + m_zbins[i + 1]),
+          m_convolRange.GetEnd() / (1 + m_zbins[i]));
+      if (!convRange_rest.IntersectWith(TFloat64Range(merged[i].lbda)))
+        continue;
+      TInt32Range const indices = getWaveRangeIndices(convRange_rest, false);
+      for (std::size_t j = 0; j < curves.size(); j++)
+        for (Int32 k = indices.GetBegin(); k <= indices.GetEnd(); k++)
+          curves[j][k] = m_corrections[i].fluxcorr[j][k];
+    }
+  }
+
+  m_corrections = std::move(merged);
+  m_convolRanges = convolRanges;
+}
-- 
2.43.0


From 14916e6f7ecc0228dfa7f746d88bad711a155502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 31/83] fix: photometric fluxes of the model were not scaled by
 the fitted amplitude

---
 RedshiftLibrary/src/lib/operator/templatefittingBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
index 0ed10ec..14d2a71 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
@@ -146,7 +146,7 @@ TPhotVal COperatorTemplateFittingBase::ComputeSpectrumModel(
                              CSpectrumSpectralAxis::nShiftForward);
   models->addModel(CSpectrum(std::move(modelwav), modelflux),
                    m_spectra[spcIndex]->getObsID());
-  return spcIndex > 0 ? TPhotVal() : getIntegratedFluxes();
+  return spcIndex > 0 ? TPhotVal() : getIntegratedFluxes(amplitude);
 }
 
 void COperatorTemplateFittingBase::RebinTemplate(
-- 
2.43.0


From 7c0f0f884b0bfb5ecdfaf199539e1a70c13ad44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 32/83] fix: photometric fluxes of the line model continuum
 were not scaled by the fitted amplitude

---
 RedshiftLibrary/src/lib/operator/linemodel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/linemodel.cpp b/RedshiftLibrary/src/lib/operator/linemodel.cpp
index 2557b99..e074a56 100644
--- a/RedshiftLibrary/src/lib/operator/linemodel.cpp
+++ b/RedshiftLibrary/src/lib/operator/linemodel.cpp
@@ -1038,6 +1038,8 @@ COperatorLineModel::buildExtremaResults(const TCandidateZbyRank &zCandidates,
       } else {
         m_fittingManager->getSpectraIndex().reset();
         phot_values = m_fittingManager->getSpectrumModel().getPhotValues();
+        for (auto &value : phot_values) // integrated with a unit amplitude
+          value.second *= cont.tplAmplitude;
       }
       ExtremaResult->m_modelPhotValues[i] =
           std::make_shared<CModelPhotValueResult>(std::move(phot_values));
-- 
2.43.0


From ccf3323fd2a6b3c18765ced317a6b6fa43b7f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 33/83] fix: IGM range of masked template copies, and
 extinction left by a change of spectral axis

---
 .../RedshiftLibrary/spectrum/template/template.h            | 4 ++--
 RedshiftLibrary/src/lib/spectrum/template/template.cpp      | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/template/template.h b/RedshiftLibrary/RedshiftLibrary/spectrum/template/template.h
index ee1205f..a36060a 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/template/template.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/template/template.h
@@ -185,12 +185,12 @@ inline void CTemplate::SetSpectralAndFluxAxes(CSpectrumSpectralAxis spcaxis,
 // override spectral axis Setters to reset ism/igm (since depends on wavelength)
 inline void
 CTemplate::SetSpectralAxis(const CSpectrumSpectralAxis &spectralaxis) {
-  m_NoIsmIgmFluxAxis.clear();
+  DisableIsmIgm();
   CSpectrum::SetSpectralAxis(spectralaxis);
 }
 
 inline void CTemplate::SetSpectralAxis(CSpectrumSpectralAxis &&spectralaxis) {
-  m_NoIsmIgmFluxAxis.clear();
+  DisableIsmIgm();
   CSpectrum::SetSpectralAxis(std::move(spectralaxis));
 }
 
diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index 814215d..5458f19 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -106,7 +106,8 @@ CTemplate::CTemplate(const CTemplate &other, const TFloat64List &mask)
                                           m_IsmIgm_kstart, m_Ism_kend);
     } catch (const AmzException &exception) {
       if (exception.getErrorCode() ==
-          ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE) {
+              ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE ||
+          exception.getErrorCode() == ErrorCode::CRANGE_NO_INTERSECTION) {
         rangeIsMasked = true;
       } else {
         throw exception;
@@ -126,6 +127,9 @@ CTemplate::CTemplate(const CTemplate &other, const TFloat64List &mask)
           CSpectrumAxis::maskVector(mask, other.m_computedDustCoeff);
       m_computedMeiksingCoeff =
           CSpectrumAxis::maskVector(mask, other.m_computedMeiksingCoeff);
+
+      if (other.m_Igm_kend != -1)
+        m_Igm_kend = GetIgmEndIndex(m_IsmIgm_kstart, m_Ism_kend);
     }
   }
 }
-- 
2.43.0


From 6dcd7473052ef00ec1374a71344637b67b50ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 34/83] fix: asymmetric profile: factor 2 in the derivative
 with position, centering on the mode for negative asymmetry, NaN delta
 refused

---
 RedshiftLibrary/src/lib/line/lineprofileASYM.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
index 2f180fa..dad32c1 100644
--- a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
+++ b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
@@ -93,7 +93,8 @@ Float64 CLineProfileASYM::GetXSurc(Float64 xc, Float64 &sigma,
     Float64 sigmaz = std::sqrt(1 - muz * muz);
     Float64 gamma1 = ((4 - M_PI) / 2.0) * pow(delta * std::sqrt(2 / M_PI), 3.) /
                      pow(1 - 2 * delta * delta / M_PI, 3. / 2.);
-    m0 = muz - gamma1 * sigmaz / 2.0 - 0.5 * exp(-2 * M_PI / m_asym_alpha);
+    m0 = muz - gamma1 * sigmaz / 2.0 -
+         copysign(0.5, m_asym_alpha) * exp(-2 * M_PI / abs(m_asym_alpha));
   }
 
   xc = xc + sigma * m0;
@@ -140,7 +141,7 @@ Float64 CLineProfileASYM::GetLineProfileDerivX0(Float64 x, Float64 x0,
   Float64 val =
       xsurc / sigma * exp(-0.5 * xsurc2) *
           (1.0 + erf(m_asym_alpha / sqrt(2.0) * xsurc)) -
-      m_asym_alpha / sqrt(2 * M_PI) / sigma * exp(-(1 + alpha2) / 2 * xsurc2);
+      m_asym_alpha * sqrt(2 / M_PI) / sigma * exp(-(1 + alpha2) / 2 * xsurc2);
   return val;
 }
 
@@ -180,7 +181,7 @@ TAsymParams CLineProfileASYM::GetAsymParams() const {
 
 bool CLineProfileASYM::isValid() const {
   if (std::isnan(m_asym_sigma_coeff) || std::isnan(m_asym_alpha) ||
-      std::isnan(m_asym_alpha)) {
+      std::isnan(m_asym_delta)) {
     return 0;
   }
   return 1;
-- 
2.43.0


From c9baddcbb1cf0bbe7ae95aa8e378a160f6636edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 35/83] fix: variable width LSF: refuse NaN widths

---
 RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp b/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp
index 23009b2..b3a798d 100644
--- a/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp
@@ -87,7 +87,7 @@ bool CLSFGaussianVariableWidth::IsValid() const {
            "and width axis");
   }
   for (Float64 w : m_width)
-    if (w <= 0.)
+    if (!(w > 0.)) // NaN included
       return false;
   return true;
 }
-- 
2.43.0


From 40b504f2913dd3f9fd852bbee47120c2ca4b7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 36/83] fix: AirToVac iterates to its stated precision

---
 RedshiftLibrary/src/lib/line/airvacuum.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/airvacuum.cpp b/RedshiftLibrary/src/lib/line/airvacuum.cpp
index 8bd8b4e..37c41e7 100644
--- a/RedshiftLibrary/src/lib/line/airvacuum.cpp
+++ b/RedshiftLibrary/src/lib/line/airvacuum.cpp
@@ -97,8 +97,11 @@ TFloat64List CAirVacuum::AirToVac(const TFloat64List &waveAir) const {
                 << m_name);
 
   do {
-    // delta = VacToAir(waveVac) - waveAir;
-    delta = VacToAir(waveVac);
+    // delta = VacToAir(waveVac) - waveAir, without range check: the vacuum
+    // counterpart of the largest valid wavelengths may lie just above the limit
+    delta = AirRefractiveIndex(waveVac);
+    std::transform(waveVac.begin(), waveVac.end(), delta.begin(), delta.begin(),
+                   std::divides<Float64>());
     std::transform(delta.begin(), delta.end(), waveAir.begin(), delta.begin(),
                    std::minus<Float64>());
 
@@ -106,10 +109,10 @@ TFloat64List CAirVacuum::AirToVac(const TFloat64List &waveAir) const {
     std::transform(waveVac.begin(), waveVac.end(), delta.begin(),
                    waveVac.begin(), std::minus<Float64>());
 
-    precision =
+    precision = abs(
         *std::max_element(delta.begin(), delta.end(), [](Float64 x, Float64 y) {
           return (abs(x) < abs(y));
-        });
+        }));
     if (precision <= minprecision)
       break;
 
-- 
2.43.0


From 560ef7e83cd4aa884cda073f4072261a7d4573b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:26 +0000
Subject: [PATCH 37/83] fix: template catalogue: replacing the only template of
 a list kept its place, lookup by name skips empty entries

---
 .../src/lib/spectrum/template/catalog.cpp           | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
index b0358ab..189d156 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
@@ -101,7 +101,7 @@ CTemplateCatalog::GetTemplateByName(const TStringList &tplCategoryList,
     if (!map.count(cat))
       continue;
     for (const auto &tpl : map.at(cat))
-      if (tpl->GetName() == tplName)
+      if (tpl && tpl->GetName() == tplName)
         return tpl;
   }
   THROWG(ErrorCode::INTERNAL_ERROR,
@@ -176,15 +176,20 @@ void CTemplateCatalog::Add(const std::shared_ptr<CTemplate> &r) {
 void CTemplateCatalog::SetTemplate(const std::shared_ptr<CTemplate> &tpl,
                                    Int32 i) {
   const std::string category = tpl->GetCategory();
+  const Int32 count = GetTemplateCount(category);
 
   // first clear given template
   ClearTemplates(category, m_orthogonal, m_logsampling, i);
 
   // assign new template
-  if (!GetTemplateCount(category))
+  if (!count)
     Add(tpl);
-  else
-    GetList().at(category).at(i) = tpl;
+  else {
+    // the list has been purged if it had no other template
+    auto &tplList = GetList().at(category);
+    tplList.resize(count);
+    tplList.at(i) = tpl;
+  }
 }
 
 // clear all templates in a category
-- 
2.43.0


From e25efe9b0cc771c1e00fc5b669d14eea7cb5551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 38/83] fix: classification with a spectrum model that has no
 redshift solver

---
 .../src/lib/method/classificationsolve.cpp         | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/method/classificationsolve.cpp b/RedshiftLibrary/src/lib/method/classificationsolve.cpp
index 874fccb..8033402 100644
--- a/RedshiftLibrary/src/lib/method/classificationsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/classificationsolve.cpp
@@ -55,11 +55,17 @@ std::shared_ptr<CSolveResult> CClassificationSolve::compute() {
   std::map<std::string, bool> hasResult;
   std::string stage = "redshiftSolver";
   for (const std::string &spectrumModel : inputContext->m_categories) {
-    const std::string &method =
-        inputContext->GetParameterStore()->Get<std::string>(
-            spectrumModel + "." + stage + ".method");
+    const std::string methodScope = spectrumModel + "." + stage + ".method";
+    // a spectrum model without redshift solver has no evidence
+    const bool hasSolver =
+        inputContext->GetParameterStore()->Has<std::string>(methodScope);
+    const std::string method =
+        hasSolver ? inputContext->GetParameterStore()->Get<std::string>(
+                        methodScope)
+                  : "";
 
-    if (resultStore->hasSolveResult(spectrumModel, stage, method)) {
+    if (hasSolver &&
+        resultStore->hasSolveResult(spectrumModel, stage, method)) {
       results[spectrumModel] = std::dynamic_pointer_cast<const CPdfSolveResult>(
           resultStore->GetSolveResult(spectrumModel, stage, method).lock());
       hasResult[spectrumModel] = true;
-- 
2.43.0


From b7935b5367061c4e4649ac3868a0744bf03dee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 39/83] fix: tplCorr: the fit of the line ratios to the fitted
 amplitudes uses the measured lines and returns its amplitudes

---
 .../src/lib/line/catalogsTplRatio.cpp         | 36 +++++++++++--------
 .../src/lib/linemodel/tplcorrmanager.cpp      |  5 ++-
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp b/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
index ec84330..0fa6ce7 100644
--- a/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
+++ b/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
@@ -171,23 +171,32 @@ Float64 CLineCatalogsTplRatio::GetBestFit(const TInt32List &validLinesIndex,
   Float64 coeffMin = -1.0;
   TFloat64List bestFitAmplitudes;
 
-  auto negativefittedValues = [&fittedAmplitudes, &fittedErrors](Int32 idx) {
-    return (fittedAmplitudes[idx] < 0 || fittedErrors[idx] <= 0);
+  auto positivefittedValues = [&fittedAmplitudes, &fittedErrors](Int32 idx) {
+    return (fittedAmplitudes[idx] >= 0 && fittedErrors[idx] > 0);
   };
 
-  // mask is unique and independent from catalogs
-  TBoolList mask;
-  for (Int32 idx = 0; idx != validLinesIndex.size(); ++idx)
-    mask.push_back(negativefittedValues(idx) ? false : true);
+  // keep only the measured lines, they are independent from catalogs
+  TInt32List measured;
+  TInt32List measuredLinesIndex;
+  TFloat64List measuredAmplitudes;
+  TFloat64List measuredErrors;
+  for (Int32 idx = 0; idx != validLinesIndex.size(); ++idx) {
+    if (!positivefittedValues(idx))
+      continue;
+    measured.push_back(idx);
+    measuredLinesIndex.push_back(validLinesIndex[idx]);
+    measuredAmplitudes.push_back(fittedAmplitudes[idx]);
+    measuredErrors.push_back(fittedErrors[idx]);
+  }
 
   for (size_t icat = 0; icat < m_lineRatioCatalogs.size(); ++icat) {
     auto const &catalog = m_lineRatioCatalogs[icat];
 
     TFloat64List ampsCorrected;
-    Float64 fit = getFitForOneCatalog(validLinesIndex, fittedAmplitudes,
-                                      fittedErrors, catalog, ampsCorrected);
+    Float64 fit = getFitForOneCatalog(measuredLinesIndex, measuredAmplitudes,
+                                      measuredErrors, catalog, ampsCorrected);
 
-    if (fit > 0.0 && !std::isnan(fit) && (fit < coeffMin || coeffMin == -1.)) {
+    if (fit >= 0.0 && !std::isnan(fit) && (fit < coeffMin || coeffMin == -1.)) {
       coeffMin = fit;
       bestFitAmplitudes = std::move(ampsCorrected);
       bestTplRatio = icat;
@@ -200,11 +209,10 @@ Float64 CLineCatalogsTplRatio::GetBestFit(const TInt32List &validLinesIndex,
   if (coeffMin < 0.)
     return coeffMin;
 
-  // fill the corrected amplitudes vector
-  for (Int32 idx = 0; idx != validLinesIndex.size(); ++idx) {
-    if (mask[idx])
-      amplitudesCorrected[idx] = bestFitAmplitudes[idx];
-  }
+  // fill the corrected amplitudes vector (NAN for the lines not measured)
+  amplitudesCorrected.assign(validLinesIndex.size(), NAN);
+  for (Int32 idx = 0; idx != measured.size(); ++idx)
+    amplitudesCorrected[measured[idx]] = bestFitAmplitudes[idx];
 
   return coeffMin;
 }
diff --git a/RedshiftLibrary/src/lib/linemodel/tplcorrmanager.cpp b/RedshiftLibrary/src/lib/linemodel/tplcorrmanager.cpp
index e96e9c3..59db043 100644
--- a/RedshiftLibrary/src/lib/linemodel/tplcorrmanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/tplcorrmanager.cpp
@@ -84,8 +84,11 @@ Float64 CTplCorrManager::computeMerit(Int32 itratio) {
                                 AmplitudesUncertainties, correctedAmplitudes,
                                 m_savedIdxFitted);
 
-  for (Int32 iValidLine = 0; iValidLine != validLinesIndex.size();
+  // correctedAmplitudes is empty if no catalog could be fitted
+  for (Int32 iValidLine = 0; iValidLine != correctedAmplitudes.size();
        ++iValidLine) {
+    if (std::isnan(correctedAmplitudes[iValidLine]))
+      continue;
     auto const [elt_idx, line_idx] = eIdxList[iValidLine];
     auto const &elt_ptr = getElementList()[elt_idx];
     auto const &elt_param_ptr = elt_ptr->getElementParam();
-- 
2.43.0


From 4114e282721c43e218aa155aacac5ca67a92dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 40/83] fix: ratioRange rule: lines of nominal amplitude other
 than 1 are set to the corrected amplitude

---
 RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
index 0d1ecc0..58655aa 100644
--- a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
+++ b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
@@ -154,8 +154,17 @@ void CRuleRatioRange::Correct(CLMEltListVector &LineModelElementList) {
   constructLogMsg(m_LineA, ampA, correctedA);
   constructLogMsg(m_LineB, ampB, correctedB);
 
-  LineModelElementList.SetElementAmplitude(i1, corrected1, er1);
-  LineModelElementList.SetElementAmplitude(i2, corrected2, er2);
+  // from line amplitudes to element amplitudes
+  Float64 const nominal1 =
+      LineModelElementList.getElementParam()[i1]->GetNominalAmplitude(
+          i1 == iEltA ? idA : idB);
+  Float64 const nominal2 =
+      LineModelElementList.getElementParam()[i2]->GetNominalAmplitude(
+          i2 == iEltA ? idA : idB);
+  LineModelElementList.SetElementAmplitude(i1, corrected1 / nominal1,
+                                           er1 / nominal1);
+  LineModelElementList.SetElementAmplitude(i2, corrected2 / nominal2,
+                                           er2 / nominal2);
 }
 
 void CRuleRatioRange::constructLogMsg(const std::string &lineStrA, Float64 ampA,
-- 
2.43.0


From 96bef54d5a745bde3077dc86d5543d1c856c81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:25 +0000
Subject: [PATCH 41/83] fix: Balmer rules on absorption lines look for
 absorption lines

---
 RedshiftLibrary/src/lib/line/regulament.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/regulament.cpp b/RedshiftLibrary/src/lib/line/regulament.cpp
index f3c0acc..2cbf44d 100644
--- a/RedshiftLibrary/src/lib/line/regulament.cpp
+++ b/RedshiftLibrary/src/lib/line/regulament.cpp
@@ -115,32 +115,32 @@ bool CRegulament::CreateRulesFromJSONFiles(void) {
 
   m_RulesVector.push_back(
       unique_ptr<CRule2SingleLinesAmplitude>(new CRule2SingleLinesAmplitude()));
-  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Emission,
+  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Absorption,
                               linetags::hbeta_abs, linetags::hgamma_abs, 1.1);
 
   m_RulesVector.push_back(
       unique_ptr<CRule2SingleLinesAmplitude>(new CRule2SingleLinesAmplitude()));
-  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Emission,
+  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Absorption,
                               linetags::hgamma_abs, linetags::hdelta_abs, 1.1);
 
   m_RulesVector.push_back(
       unique_ptr<CRule2SingleLinesAmplitude>(new CRule2SingleLinesAmplitude()));
-  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Emission,
+  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Absorption,
                               linetags::hdelta_abs, linetags::h8_abs, 1.1);
 
   m_RulesVector.push_back(
       unique_ptr<CRule2SingleLinesAmplitude>(new CRule2SingleLinesAmplitude()));
-  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Emission,
+  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Absorption,
                               linetags::h8_abs, linetags::h9_abs, 1.1);
 
   m_RulesVector.push_back(
       unique_ptr<CRule2SingleLinesAmplitude>(new CRule2SingleLinesAmplitude()));
-  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Emission,
+  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Absorption,
                               linetags::h9_abs, linetags::h10_abs, 1.1);
 
   m_RulesVector.push_back(
       unique_ptr<CRule2SingleLinesAmplitude>(new CRule2SingleLinesAmplitude()));
-  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Emission,
+  m_RulesVector.back()->SetUp(True, CLine::EType::nType_Absorption,
                               linetags::h10_abs, linetags::h11_abs, 1.1);
 
   m_RulesVector.push_back(unique_ptr<CRuleRatioRange>(new CRuleRatioRange()));
-- 
2.43.0


From f2d3108e14a243579e807d5a358c088505746a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 42/83] fix: line detection: a retested line keeps its
 amplitude and width (they were exchanged)

---
 RedshiftLibrary/src/lib/operator/linedetection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/linedetection.cpp b/RedshiftLibrary/src/lib/operator/linedetection.cpp
index e50f15d..9e044c8 100644
--- a/RedshiftLibrary/src/lib/operator/linedetection.cpp
+++ b/RedshiftLibrary/src/lib/operator/linedetection.cpp
@@ -220,7 +220,7 @@ std::shared_ptr<const CLineDetectionResult> CLineDetection::Compute(
         // add this peak range to retest list
         retestPeaks.push_back(resPeaks[j]);
         retestGaussParams.push_back(
-            SGaussParams(gaussPos, gaussAmp, gaussWidth));
+            SGaussParams(gaussPos, gaussWidth, gaussAmp));
       } else {
         if (ratioAmp > m_cut * m_strongcut) {
           force = CLine::EForce::nForce_Strong;
-- 
2.43.0


From bef39d3cbec84ab7271b5e722b890bf8398429d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 43/83] fix: line matching: no mean redshift for an index into
 an empty list of solutions

---
 RedshiftLibrary/src/lib/operator/linematchingresult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/linematchingresult.cpp b/RedshiftLibrary/src/lib/operator/linematchingresult.cpp
index f0ed734..ab21868 100644
--- a/RedshiftLibrary/src/lib/operator/linematchingresult.cpp
+++ b/RedshiftLibrary/src/lib/operator/linematchingresult.cpp
@@ -182,7 +182,7 @@ TFloat64List CLineMatchingResult::GetExtendedRedshiftCandidatesOverNumber(
  * "index".
  */
 Float64 CLineMatchingResult::GetMeanRedshiftSolutionByIndex(Int32 index) const {
-  if (index > SolutionSetList.size() - 1) {
+  if (index < 0 || index >= Int32(SolutionSetList.size())) {
     return -1.0;
   }
 
-- 
2.43.0


From 2cfb64be240dc4993840c1ca27bf7240c918ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 44/83] fix: line matching rules: lines are tested against the
 wavelength range (never inside before)

---
 RedshiftLibrary/src/lib/line/rules.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/rules.cpp b/RedshiftLibrary/src/lib/line/rules.cpp
index a66c09b..c588aa3 100644
--- a/RedshiftLibrary/src/lib/line/rules.cpp
+++ b/RedshiftLibrary/src/lib/line/rules.cpp
@@ -124,7 +124,7 @@ bool CRules::checkRule01(
     maxNoiseWeak = std::max(maxNoiseWeak, noiseWeak);
   }
   // estimate the strong lines SNR
-  for (const auto &[_, line] : strongRestLineList) {
+  for (const auto &[_, line] : strongRestLinesInsideLambdaRangeList) {
     Float64 const lambda = line.GetPosition() * (1 + z);
     TFloat64Range const lambdarange(lambda - m_winsize / 2.0,
                                     lambda + m_winsize / 2.0);
@@ -218,7 +218,8 @@ Float64 CRules::getRestLineLambda(std::string nametag) const {
 }
 
 bool CRules::isLineInsideRange(Float64 lambda, bool winsize) const {
-  Float64 start = m_lambdaRange.GetBegin() + winsize ? m_winsize : 0.;
-  Float64 end = m_lambdaRange.GetEnd() + winsize ? m_winsize : 0.;
+  Float64 margin = winsize ? m_winsize : 0.;
+  Float64 start = m_lambdaRange.GetBegin() + margin;
+  Float64 end = m_lambdaRange.GetEnd() - margin;
   return (lambda >= start && lambda <= end);
 }
-- 
2.43.0


From 42cf3b896e51eddcaf173ffe0ec13eafb954fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:15 +0000
Subject: [PATCH 45/83] fix: line detection: samples of the spectrum without
 its strong lines are counted from its first one

---
 RedshiftLibrary/src/lib/operator/linedetection.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/linedetection.cpp b/RedshiftLibrary/src/lib/operator/linedetection.cpp
index 9e044c8..0d042a3 100644
--- a/RedshiftLibrary/src/lib/operator/linedetection.cpp
+++ b/RedshiftLibrary/src/lib/operator/linedetection.cpp
@@ -510,10 +510,11 @@ void CLineDetection::RemoveStrongFromSpectra(
   // create reduced spectra
   const CSpectrum reducedSpectrum(spectrum, mask);
   TInt32List reducedindexesMap(spectrum.GetSampleCount());
-  for (Int32 k = 1; k < spectrum.GetSampleCount(); k++) {
-    reducedindexesMap[k] = reducedindexesMap[k - 1];
+  Int32 keptCount = 0;
+  for (Int32 k = 0; k < spectrum.GetSampleCount(); k++) {
     if (mask[k] != 0)
-      reducedindexesMap[k] += 1;
+      ++keptCount;
+    reducedindexesMap[k] = std::max(0, keptCount - 1);
   }
 
   for (int k = 0; k < selectedretestPeaks.size(); k++) {
-- 
2.43.0


From 8c1ecb40eafce1e6ab9a0fc6c8166f5e60bb425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:24 +0000
Subject: [PATCH 46/83] fix: peak detection: no deviation is read from an empty
 window (last sample, window below the sampling step)

---
 RedshiftLibrary/src/lib/operator/peakdetection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/peakdetection.cpp b/RedshiftLibrary/src/lib/operator/peakdetection.cpp
index 89be03d..8a72289 100644
--- a/RedshiftLibrary/src/lib/operator/peakdetection.cpp
+++ b/RedshiftLibrary/src/lib/operator/peakdetection.cpp
@@ -265,6 +265,8 @@ Float64 CPeakDetection::XMad(const TFloat64List::const_iterator &begin,
   Int32 n = distance(begin, end);
   TFloat64List xdata(n);
   Float64 xmadm = 0.0;
+  if (n < 1)
+    return xmadm;
 
   for (Int32 i = 0; i < n; i++) {
     xdata[i] = fabs(begin[i] - median);
-- 
2.43.0


From b417c0e5c10c47fb197f469e3a721119e7423cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 47/83] fix: check the wavelengths left after filtering, not
 the loaded ones

---
 pylibamazed/python/pylibamazed/AbstractSpectrumReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
index c3ccbba..c90e1af 100644
--- a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
+++ b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
@@ -268,7 +268,7 @@ class AbstractSpectrumReader:
         """Looks if lambda range specified in parameters is contained in spectrum range."""
         for obs_id in self.waves.keys():
             [params_lambda_min, params_lambda_max] = self.parameters.get_lambda_range(obs_id)
-            obs_waves = np.array(self.waves.get(obs_id))
+            obs_waves = np.array(self._editable_waves(obs_id))
             if obs_waves.size == 0:
                 raise APIException(
                     ErrorCode.INVALID_SPECTRUM,
-- 
2.43.0


From 295dfb5cd0cf03478376edee2cfdba10bab1b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:16 +0000
Subject: [PATCH 48/83] fix: load_wave, load_flux and load_error of the ASCII
 reader ignored the observation name

---
 pylibamazed/python/pylibamazed/ASCIISpectrumReader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ASCIISpectrumReader.py b/pylibamazed/python/pylibamazed/ASCIISpectrumReader.py
index 58ad45f..264b276 100644
--- a/pylibamazed/python/pylibamazed/ASCIISpectrumReader.py
+++ b/pylibamazed/python/pylibamazed/ASCIISpectrumReader.py
@@ -67,13 +67,13 @@ class ASCIISpectrumReader(AbstractSpectrumReader):
     """
 
     def load_wave(self, spectrum, obs_id=""):
-        self.waves.append(spectrum.wave)
+        self.waves.append(spectrum.wave, obs_id)
 
     def load_flux(self, spectrum, obs_id=""):
-        self.fluxes.append(spectrum.flux)
+        self.fluxes.append(spectrum.flux, obs_id)
 
     def load_error(self, spectrum, obs_id=""):
-        self.errors.append(spectrum.err)
+        self.errors.append(spectrum.err, obs_id)
 
     def load_lsf(self, spectrum, obs_id=""):
         pass
-- 
2.43.0


From 811bffcd8d379635f3eb838c99d6e1d496628c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:10 +0000
Subject: [PATCH 49/83] fix: lower end of the lambda ranges of several
 observations (xor for a power), upper end of a single one

---
 pylibamazed/python/pylibamazed/Parameters.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/Parameters.py b/pylibamazed/python/pylibamazed/Parameters.py
index cae312d..9eeafcf 100644
--- a/pylibamazed/python/pylibamazed/Parameters.py
+++ b/pylibamazed/python/pylibamazed/Parameters.py
@@ -222,16 +222,11 @@ class Parameters(ParametersAccessor):
         if self.get_multiobs_method() != "full":
             return self.get_lambda_range()[0]
         else:
-            ret = 10 ^ 9
-            for obs_id in self.get_observation_ids():
-                cur = self.get_lambda_range(obs_id)[0]
-                if cur < ret:
-                    ret = cur
-            return ret
+            return min(self.get_lambda_range(obs_id)[0] for obs_id in self.get_observation_ids())
 
     def get_lambda_range_max(self):
         if self.get_multiobs_method() != "full":
-            return self.get_lambda_range()[0]
+            return self.get_lambda_range()[1]
         else:
             ret = 0
             for obs_id in self.get_observation_ids():
-- 
2.43.0


From dd49f2287fd8edadccc80d190bbbeadb336687fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:14 +0000
Subject: [PATCH 50/83] fix: refusals of an incoherent configuration and of an
 unknown stage (code that does not exist, message without the stage)

---
 pylibamazed/python/pylibamazed/Parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/Parameters.py b/pylibamazed/python/pylibamazed/Parameters.py
index 9eeafcf..aeeef8a 100644
--- a/pylibamazed/python/pylibamazed/Parameters.py
+++ b/pylibamazed/python/pylibamazed/Parameters.py
@@ -182,7 +182,7 @@ class Parameters(ParametersAccessor):
         elif stage == "subClassifSolver":
             return self.is_tplratio_catalog_needed(spectrum_model)
         else:
-            raise APIException(ErrorCode.INTERNAL_ERROR, "Unknown stage {stage}")
+            raise APIException(ErrorCode.INTERNAL_ERROR, f"Unknown stage {stage}")
 
     def set_lsf_param(self, param_name, data):
         self.parameters["lsf"][param_name] = data
@@ -213,7 +213,7 @@ class Parameters(ParametersAccessor):
             if method == "lineModelSolve":
                 if self.get_linemeas_method(spectrum_model):
                     raise APIException(
-                        ErrorCode.INCOHERENT_CONFIG_OPTION,
+                        ErrorCode.INCOHERENT_CONFIG_OPTIONS,
                         "Cannot run LineMeasSolve from catalog when sequencial processing is selected"
                         "simultaneously."
                     )
-- 
2.43.0


From 9b2579758a2ddae8fd8d5981a670e845265e4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:14 +0000
Subject: [PATCH 51/83] fix: medianEvenReflection false was taken for missing

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index bec4140..2ea4f5a 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -270,7 +270,7 @@ class ParametersChecker:
     def _check_IrregularSamplingMedian_kernel_width(self, fromTemplateCatalog=False):
         self._check_dependant_parameter_presence(
             self.median_kernel_presence_condition(fromTemplateCatalog),
-            self.accessor.get_continuum_removal_median_kernel_width(fromTemplateCatalog),
+            self.accessor.get_continuum_removal_median_kernel_width(fromTemplateCatalog) is not None,
             "continuumRemoval medianKernelWidth",
             "continuumRemoval medianKernelWidth"
         )
@@ -278,7 +278,7 @@ class ParametersChecker:
     def _check_IrregularSamplingMedian_kernel_reflection(self, fromTemplateCatalog=False):
         self._check_dependant_parameter_presence(
             self.median_kernel_presence_condition(fromTemplateCatalog),
-            self.accessor.get_continuum_median_kernel_reflection(fromTemplateCatalog),
+            self.accessor.get_continuum_median_kernel_reflection(fromTemplateCatalog) is not None,
             "continuumRemoval medianEvenReflection",
             "continuumRemoval medianEvenReflection"
         )
-- 
2.43.0


From 61c90f84325748d98f76f602f344d91e987bcfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:30 +0000
Subject: [PATCH 52/83] fix: sourceSize is asked for the
 gaussianNISPVSSPSF201707 lsf, which reads it

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 2ea4f5a..a812c9d 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -178,7 +178,7 @@ class ParametersChecker:
 
     def _check_GaussianNISPSIM_lsf_type(self):
         self._check_dependant_parameter_presence(
-            self.accessor.get_lsf_type() == "GaussianNISPSIM201707",
+            self.accessor.get_lsf_type() in ["GaussianNISPSIM201707", "gaussianNISPVSSPSF201707"],
             self.accessor.get_lsf_sourcesize() is not None,
             "lsf sourceSize",
             "lsf sourceSize"
-- 
2.43.0


From 7028d798c12b507332309f2b283f68ab1b369ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:30 +0000
Subject: [PATCH 53/83] fix: continuumReestimation "no" does not need
 continuumRemoval

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index a812c9d..560c370 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -251,7 +251,7 @@ class ParametersChecker:
             if template_fitting_spectrum_component not in [None, "raw"] \
                 or template_combination_spectrum_component not in [None, "raw"] \
                     or linemodel_continuum_component in ["fromSpectrum", "tplFitAuto"] \
-                    or linemodel_continuum_reestimation not in [None, "never"]:
+                    or linemodel_continuum_reestimation not in [None, "no", "never"]:
                 continuum_removal_necessity = True
         return continuum_removal_necessity
 
-- 
2.43.0


From 4e5da73bd2c98212577114f6d37b9df973b67ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:30 +0000
Subject: [PATCH 54/83] fix: the continuumReestimation required with
 continuumComponent fromSpectrum is not overwritten

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 560c370..c9c27b2 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -469,7 +469,8 @@ class ParametersChecker:
         )
 
     def linemodelsolve_continuumreestimation_presence_condition(self, spectrum_model):
-        return self.accessor.get_linemodel_fitting_method(spectrum_model) == "hybrid"
+        return self.accessor.get_linemodel_fitting_method(spectrum_model) == "hybrid" \
+            or self.accessor.get_linemodel_continuum_component(spectrum_model) == "fromSpectrum"
 
     def _check_linemodelsolve_continuumreestimation(self, spectrum_model):
         self._check_dependant_parameter_presence(
-- 
2.43.0


From 3954bb0ec9a5ddbb782edfb62f56079b77dc09ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:30 +0000
Subject: [PATCH 55/83] fix: the filter instruction ~^ of the parameters schema
 is accepted

---
 pylibamazed/python/pylibamazed/Filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/Filter.py b/pylibamazed/python/pylibamazed/Filter.py
index 868da36..eec4be5 100644
--- a/pylibamazed/python/pylibamazed/Filter.py
+++ b/pylibamazed/python/pylibamazed/Filter.py
@@ -53,7 +53,7 @@ class FilterItem:
     - value: with which value we want to make the comparison
     """
 
-    allowed_instructions = ["<", ">", "<=", ">=", "=", "in", "~in", "!=", "&", "~&", "0&", "^"]
+    allowed_instructions = ["<", ">", "<=", ">=", "=", "in", "~in", "!=", "&", "~&", "0&", "^", "~^"]
 
     def __init__(self, key: str, instruction: str, value: any):
         self.check_instruction(instruction)
-- 
2.43.0


From c2dc505a4f653baf5fad76a83edda02b14534e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:46 +0000
Subject: [PATCH 56/83] fix: schemas of version 2: names, types and nesting are
 those the code reads

---
 .../pylibamazed/jsonschema-v2/general.json    |   2 +-
 .../jsonschema-v2/line_model_priors.json      |   4 +-
 .../jsonschema-v2/line_model_solve.json       |   8 +-
 .../jsonschema-v2/linemeas_solve.json         | 166 ++++++++++++++++++
 .../jsonschema-v2/linemeas_solver.json        | 164 ++---------------
 .../auxdir/pylibamazed/jsonschema-v2/lsf.json |   2 +-
 .../pylibamazed/jsonschema-v2/lya_fit.json    |   4 +-
 .../jsonschema-v2/reliability_solver.json     |  11 +-
 .../jsonschema-v2/spectrum_model.json         |   4 +-
 .../jsonschema-v2/template_fitting_solve.json |   2 +-
 10 files changed, 194 insertions(+), 173 deletions(-)
 create mode 100644 pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solve.json

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json
index 1eeb56d..6225bf7 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json
@@ -55,7 +55,7 @@
       ],
       "items": false
     },
-    "airvacuumMethod": {
+    "airVacuumMethod": {
       "type": "string",
       "enum": [
         "",
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json
index e0f4d04..80a51a4 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json
@@ -7,7 +7,7 @@
     "betaA",
     "betaTE",
     "betaZ",
-    "catalogDirpath"
+    "catalogDirPath"
   ],
   "additionalProperties": false,
   "properties": {
@@ -26,7 +26,7 @@
       "title": "Beta Z",
       "description": "Weight to redshift prior (redshift bins), the chi2 penalty is thus `-2 betaZ log(P(z))`"
     },
-    "catalogDirpath": {
+    "catalogDirPath": {
       "type": "string",
       "title": "Catalog directory path",
       "description": "Absolute path to the calibration file containing the parameters probability, empty string unset all priors"
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
index e8614a0..399d773 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
@@ -25,10 +25,10 @@
         "lineRatioType",
         "continuumComponent",
         "strongLinesPrior",
-        "euclidNHaemittersStrength",
+        "nOfZPriorStrength",
         "pdfCombination",
         "nSigmaSupport",
-        "haPrior",
+        "hAlphaPrior",
         "extremaCountB",
         "enablePhotometry",
         "lya",
@@ -226,7 +226,7 @@
           "title": "Strong lines prior",
           "description": "\n * **-1**: no prior \n * **else**: use this value (positive below 1) as a low probability when no strong line is measured (the measured amplitude is s>0) & probability is set to 1 when a strong line is observed"
         },
-        "euclidNHaemittersStrength": {
+        "nOfZPriorStrength": {
           "type": "number",
           "title": "Pozetti N(z) prior",
           "description": "Strength (beta) of the penalty. The chi2 penalty is -2 beta log(P(z)). No penalty for a negative or zero values"
@@ -245,7 +245,7 @@
           "title": "Support size",
           "description": "Full (not half) size of each line support in sigma of the gaussian profile "
         },
-        "haPrior": {
+        "hAlphaPrior": {
           "type": "number",
           "title": "Ha prior",
           "description": "\n * **-1**: no prior \n * **positive below 1**: low multiplicative prior probability (posterior penalization) when Ha line is not measured (the measured amplitude is <=0 or is not the strongest measured line) \n * **else**: prior probability is set to 1 when Ha line is strongest measured line, typical value between 1e-1 to 1e-5"
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solve.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solve.json
new file mode 100644
index 0000000..74dfe11
--- /dev/null
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solve.json
@@ -0,0 +1,166 @@
+{
+  "$id": "linemeas_solve",
+  "$schema": "https://json-schema.org/draft/2020-12/schema",
+  "title": "Linemeas solve",
+  "type": "object",
+  "additionalProperties": false,
+  "required": [
+    "lineModel"
+  ],
+  "properties": {
+    "lineModel": {
+      "required": [
+        "continuumComponent",
+        "improveBalmerFit",
+        "lineTypeFilter",
+        "lineForceFilter",
+        "polynomialDegree",
+        "lya",
+        "lineCatalog",
+        "nSigmaSupport",
+        "lineWidthType",
+        "fittingMethod",
+        "velocityFit",
+        "lbdaOffsetFit",
+        "ampOffsetFit",
+        "lineRatioType"
+      ],
+      "type": "object",
+      "additionalProperties": false,
+      "properties": {
+        "continuumComponent": {
+          "type": "string",
+          "enum": [
+            "fromSpectrum",
+            "tplFit",
+            "tplFitAuto",
+            "noContinuum"
+          ],
+          "title": "Continuum processing method",
+          "description": "Selects the method for processing the continuum: \n * **fromSpectrum**: remove an estimated continuum (the continuum estmation is then tuned via continuumRemoval parameters). The redshift is thus only estimated from the lines \n * **tplfit** : fit a set of redshifted template (aka \"fullmodel\" ie contiuum model + line model) \n * **tplfitauto** : same than \"tplFit\", but switch to \"fromSpectrum\" if the fitted continuum amplitude is found significantly negative (at all z)"
+        },
+        "improveBalmerFit": {
+          "type": "boolean",
+          "title": "Wether to improve Balmer fit",
+          "description": "Used only if `lineRatioType=rules`"
+        },
+        "lineTypeFilter": {
+          "type": "string",
+          "enum": [
+            "E",
+            "A",
+            "no"
+          ],
+          "title": "Filter on lines type",
+          "description": "Restrictions on the type of line to fit: \n * **E**: Emission \n * **A**: Absorption \n * **no**: fit all"
+        },
+        "lineForceFilter": {
+          "type": "string",
+          "enum": [
+            "W",
+            "S",
+            "no"
+          ],
+          "title": "Filter on lines force",
+          "description": "Restrict the strength category of lines to fit: \n * **W**: Weak \n * **S**: strong \n * **no**: fit all"
+        },
+        "polynomialDegree": {
+          "type": "integer",
+          "title": "Polynomial degree",
+          "description": "Value between 0 and 2, referring to the polynom degree to represent the continuum below lines. Useful only if ampOffsetFit=True."
+        },
+        "lya": {
+          "$ref": "lya_fit.json"
+        },
+        "lineCatalog": {
+          "type": "string",
+          "title": "Line catalog path",
+          "description": "Path to line catalog file"
+        },
+        "nSigmaSupport": {
+          "type": "number",
+          "title": "Support size",
+          "description": "Full (not half) size of each line support in sigma of the gaussian profile."
+        },
+        "lineWidthType": {
+          "type": "string",
+          "enum": [
+            "combined",
+            "instrumentDriven",
+            "velocityDriven"
+          ],
+          "title": "Line width type",
+          "description": "Selects which component are included in the line width \n * **instrumentDriven**: only instrument resolution (no intrinsic line width due to velocity dispersion) \n * **velocityDriven**: only line velocity dispersion (assuming negligible instrument PSF) \n * **combined**: both instrument resolution and velocity dispersion"
+        },
+        "fittingMethod": {
+          "type": "string",
+          "enum": [
+            "individual",
+            "svd",
+            "hybrid",
+            "lbfgsb"
+          ],
+          "title": "Line fitting method",
+          "description": "Line fitting method: \n* **individual**: independant fit of all lines amplitude \n * **svd**: joint fit of all lines amplitude (sparsity not exploited) \n * **hybrid**: svd only for groups of lines sharings pixels (eg. Ha and N2), independant fit for the other lines \n * **lbfgsb**: like hybrid but using non-linear least-square fit instead of svd to fit jointly the 3 Gaussian parameters (amplitude, position and width). Based on l-bfgs-b algorithm (bounded gradient descent). \n Note: it is not relevant when lineRatioType = tplRatio, because one set of ratio corresponds to a unique amplitude fitted for all lines, and thus it is using the individual fitter"
+        },
+        "velocityFit": {
+          "type": "boolean",
+          "title": "Wether to fit line width",
+          "discription": "Wether 2nd pass includes line width fitting. Used only if `fittingMethod=lbfgsb` (for linemeas)."
+        },
+        "emVelocityFitMin": {
+          "type": "number",
+          "title": "Emission lines velocity min",
+          "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for emission lines. To specify only if fittingMethod is lbfgsb."
+        },
+        "emVelocityFitMax": {
+          "type": "number",
+          "title": "Emission lines velocity max",
+          "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for emission lines. To specify only if fittingMethod is lbfgsb."
+        },
+        "absVelocityFitMin": {
+          "type": "number",
+          "title": "Aborption lines velocity min",
+          "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for absorption lines. To specify only if fittingMethod is lbfgsb."
+        },
+        "absVelocityFitMax": {
+          "type": "number",
+          "title": "Aborption lines velocity max",
+          "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for absorption lines. To specify only if fittingMethod is lbfgsb."
+        },
+        "lbdaOffsetFit": {
+          "type": "boolean",
+          "title": "Wether to fit wavelength offset",
+          "description": "Wether to include wavelength offset fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
+        },
+        "ampOffsetFit": {
+          "type": "boolean",
+          "title": "Wether to fit amplitude offset",
+          "description": "Wether to use line's polynomial offset in the profile fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
+        },
+        "lineRatioType": {
+          "type": "string",
+          "enum": [
+            "tplRatio",
+            "rules",
+            "tplCorr"
+          ],
+          "title": "Line ratio type",
+          "description": "\n * **rules**: fit all lines amplitude independently with eventualy some constraints (see rules parameter below) \n * **tplRatio**: fit one amplitude with fixed line ratios coming from template-ratio catalogs"
+        },
+        "rules": {
+          "type": "string",
+          "enum": [
+            "all",
+            "no",
+            "strongWeak",
+            "balmerSingle",
+            "ratioRange"
+          ],
+          "title": "Rules",
+          "description": "Selects used rules (only for `lineRatioType=rules`)"
+        }
+      }
+    }
+  }
+}
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json
index 6fca5bb..6084fc8 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json
@@ -5,162 +5,20 @@
   "type": "object",
   "additionalProperties": false,
   "required": [
-    "lineModel"
+    "method",
+    "lineMeasSolve"
   ],
   "properties": {
-    "lineModel": {
-      "required": [
-        "continuumComponent",
-        "improveBalmerFit",
-        "lineTypeFilter",
-        "lineForceFilter",
-        "polynomialDegree",
-        "lya",
-        "lineCatalog",
-        "nSigmaSupport",
-        "lineWidthType",
-        "fittingMethod",
-        "velocityFit",
-        "lbdaOffsetFit",
-        "ampOffsetFit",
-        "lineRatioType"
+    "method": {
+      "title": "Method",
+      "type": "string",
+      "enum": [
+        "lineMeasSolve"
       ],
-      "type": "object",
-      "additionalProperties": false,
-      "properties": {
-        "continuumComponent": {
-          "type": "string",
-          "enum": [
-            "fromSpectrum",
-            "tplFit",
-            "tplFitAuto",
-            "noContinuum"
-          ],
-          "title": "Continuum processing method",
-          "description": "Selects the method for processing the continuum: \n * **fromSpectrum**: remove an estimated continuum (the continuum estmation is then tuned via continuumRemoval parameters). The redshift is thus only estimated from the lines \n * **tplfit** : fit a set of redshifted template (aka \"fullmodel\" ie contiuum model + line model) \n * **tplfitauto** : same than \"tplFit\", but switch to \"fromSpectrum\" if the fitted continuum amplitude is found significantly negative (at all z)"
-        },
-        "improveBalmerFit": {
-          "type": "boolean",
-          "title": "Wether to improve Balmer fit",
-          "description": "Used only if `lineRatioType=rules`"
-        },
-        "lineTypeFilter": {
-          "type": "string",
-          "enum": [
-            "E",
-            "A",
-            "no"
-          ],
-          "title": "Filter on lines type",
-          "description": "Restrictions on the type of line to fit: \n * **E**: Emission \n * **A**: Absorption \n * **no**: fit all"
-        },
-        "lineForceFilter": {
-          "type": "string",
-          "enum": [
-            "W",
-            "S",
-            "no"
-          ],
-          "title": "Filter on lines force",
-          "description": "Restrict the strength category of lines to fit: \n * **W**: Weak \n * **S**: strong \n * **no**: fit all"
-        },
-        "polynomialDegree": {
-          "type": "integer",
-          "title": "Polynomial degree",
-          "description": "Value between 0 and 2, referring to the polynom degree to represent the continuum below lines. Useful only if ampOffsetFit=True."
-        },
-        "lya": {
-          "$ref": "lya_fit.json"
-        },
-        "lineCatalog": {
-          "type": "string",
-          "title": "Line catalog path",
-          "description": "Path to line catalog file"
-        },
-        "nSigmaSupport": {
-          "type": "number",
-          "title": "Support size",
-          "description": "Full (not half) size of each line support in sigma of the gaussian profile."
-        },
-        "lineWidthType": {
-          "type": "string",
-          "enum": [
-            "combined",
-            "instrumentDriven",
-            "velocityDriven"
-          ],
-          "title": "Line width type",
-          "description": "Selects which component are included in the line width \n * **instrumentDriven**: only instrument resolution (no intrinsic line width due to velocity dispersion) \n * **velocityDriven**: only line velocity dispersion (assuming negligible instrument PSF) \n * **combined**: both instrument resolution and velocity dispersion"
-        },
-        "fittingMethod": {
-          "type": "string",
-          "enum": [
-            "individual",
-            "svd",
-            "hybrid",
-            "lbfgsb"
-          ],
-          "title": "Line fitting method",
-          "description": "Line fitting method: \n* **individual**: independant fit of all lines amplitude \n * **svd**: joint fit of all lines amplitude (sparsity not exploited) \n * **hybrid**: svd only for groups of lines sharings pixels (eg. Ha and N2), independant fit for the other lines \n * **lbfgsb**: like hybrid but using non-linear least-square fit instead of svd to fit jointly the 3 Gaussian parameters (amplitude, position and width). Based on l-bfgs-b algorithm (bounded gradient descent). \n Note: it is not relevant when lineRatioType = tplRatio, because one set of ratio corresponds to a unique amplitude fitted for all lines, and thus it is using the individual fitter"
-        },
-        "velocityFit": {
-          "type": "boolean",
-          "title": "Wether to fit line width",
-          "discription": "Wether 2nd pass includes line width fitting. Used only if `fittingMethod=lbfgsb` (for linemeas)."
-        },
-        "emVelocityFitMin": {
-          "type": "number",
-          "title": "Emission lines velocity min",
-          "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for emission lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "emVelocityFitMax": {
-          "type": "number",
-          "title": "Emission lines velocity max",
-          "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for emission lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "absVelocityFitMin": {
-          "type": "number",
-          "title": "Aborption lines velocity min",
-          "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for absorption lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "absVelocityFitMax": {
-          "type": "number",
-          "title": "Aborption lines velocity max",
-          "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for absorption lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "lbdaOffsetFit": {
-          "type": "boolean",
-          "title": "Wether to fit wavelength offset",
-          "description": "Wether to include wavelength offset fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
-        },
-        "ampOffsetFit": {
-          "type": "boolean",
-          "title": "Wether to fit amplitude offset",
-          "description": "Wether to use line's polynomial offset in the profile fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
-        },
-        "lineRatioType": {
-          "type": "string",
-          "enum": [
-            "tplRatio",
-            "rules",
-            "tplCorr"
-          ],
-          "title": "Line ratio type",
-          "description": "\n * **rules**: fit all lines amplitude independently with eventualy some constraints (see rules parameter below) \n * **tplRatio**: fit one amplitude with fixed line ratios coming from template-ratio catalogs"
-        },
-        "rules": {
-          "type": "string",
-          "enum": [
-            "all",
-            "no",
-            "strongWeak",
-            "balmerSingle",
-            "ratioRange"
-          ],
-          "title": "Rules",
-          "description": "Selects used rules (only for `lineRatioType=rules`)"
-        }
-      }
+      "description": "Name of the method to apply for line measurement."
+    },
+    "lineMeasSolve": {
+      "$ref": "linemeas_solve.json"
     }
   }
 }
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
index 795b5b7..e548425 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
@@ -36,7 +36,7 @@
       "title": "Source size",
       "description": "Must be specified if and only if LSFType=gaussianNISPVSSPSF201707"
     },
-    "gaussianVariablewidthFileName": {
+    "gaussianVariableWidthFileName": {
       "type": "string",
       "title": "Path to file where width array is saved",
       "description": "Must be specified if and only if LSFType=gaussianVariableWidth"
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json
index d5c7a1e..56edae2 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json
@@ -80,12 +80,12 @@
           "title": "Delta fit step",
           "description": "Tabulation of Lya offset, step value (in Angtr\u00f6ms)"
         },
-        "swicthFixedToFit": {
+        "switchFixedToFit": {
           "type": "boolean",
           "title": "Force Lya fit",
           "description": "For `ASYMFIXED` profiles only: \n * **true**: fit Lya shape (alpha, width & offset) and forget values from template-ratio catalog \n * **false**: use Lya shape values from template-ratio catalog."
         },
-        "swicthFitToFixed": {
+        "switchFitToFixed": {
           "type": "boolean",
           "title": "Force lya fit disabling",
           "description": "For ASYMFIT profiles only: \n * **true**: set hard coded values for Lya shape (alpha=2.0, width=2.0, offset=0.0) \n * **false**: fit or use template-ratio values depending on lyaforcefit parameter."
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
index 0a29609..afd3be8 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
@@ -12,13 +12,10 @@
     "method": {
       "title": "Method",
       "description": "Name of the method to apply for reliability estimation.",
-      "type": "array",
-      "items": {
-        "type": "string",
-        "enum": [
-          "deepLearningSolver"
-        ]
-      }
+      "type": "string",
+      "enum": [
+        "deepLearningSolver"
+      ]
     },
     "deepLearningSolver": {
       "title": "Deep learning solver",
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
index d5808a1..80295fc 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
@@ -46,12 +46,12 @@
       "type": "string",
       "title": "Template directory"
     },
-    "linemeasDzHalf": {
+    "lineMeasDzHalf": {
       "type": "number",
       "title": "Redshift range radius",
       "description": "Radius for redshift range around Zref "
     },
-    "linemeasRedshiftStep": {
+    "lineMeasRedshiftStep": {
       "type": "number",
       "title": "Redshift step"
     },
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json
index aed9869..25c5cf9 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json
@@ -19,7 +19,7 @@
   "properties": {
     "fftProcessing": {
       "description": "Using FFT for Least-square template fitting (in log lambda)",
-      "type": "bool"
+      "type": "boolean"
     },
     "overlapThreshold": {
       "description": "Minimal fraction of the spectrum to be covered by the redshifted template to proceed (at each redshift)",
-- 
2.43.0


From 60f686f28b4f4292bd09a070892d0d8f6b59ddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:46 +0000
Subject: [PATCH 57/83] fix: rules balmerSingle of the parameters enables the
 rule of that name

---
 RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp   | 2 +-
 pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp b/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp
index fd4aae6..5ec6cfe 100644
--- a/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp
+++ b/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp
@@ -52,7 +52,7 @@ CRule2SingleLinesAmplitude::CRule2SingleLinesAmplitude()
       m_Coefficient(0) {}
 
 void CRule2SingleLinesAmplitude::SetUp(bool EnabledArgument, ...) {
-  Name = "balmersingle";
+  Name = "balmerSingle";
   Enabled = EnabledArgument;
   va_list Arguments;
   va_start(Arguments, EnabledArgument);
diff --git a/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv b/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv
index e8b5741..65cc198 100644
--- a/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv
+++ b/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv
@@ -20,7 +20,7 @@ nocontinuum,noContinuum,value,value
 onlyextrema,onlyextrema,value,value
 bestchi2,bestChi2,value,value
 strongweak,strongWeak,value,value
-balmerSingle,balmerSingle,value,value
+balmersingle,balmerSingle,value,value
 ratiorange,ratioRange,value,value
 GaussianConstantWidth,gaussianConstantWidth,value,value
 GaussianConstantResolution,gaussianConstantResolution,value,value
-- 
2.43.0


From 9a5ecbf83aa0b56e4f0e73d04744788329c33e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 58/83] fix: filters on Wave, Flux and Err, the names the
 parameters accept, apply to the columns of the spectrum

---
 pylibamazed/python/pylibamazed/FilterLoader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/FilterLoader.py b/pylibamazed/python/pylibamazed/FilterLoader.py
index 002d4ad..e802382 100644
--- a/pylibamazed/python/pylibamazed/FilterLoader.py
+++ b/pylibamazed/python/pylibamazed/FilterLoader.py
@@ -73,6 +73,9 @@ class ParamJsonFilterLoader(AbstractFilterLoader):
     ]
     """
 
+    # names of the spectrum columns in the parameters: names of the columns which are filtered
+    column_names = {"Wave": "waves", "Flux": "fluxes", "Err": "errors"}
+
     def __init__(
         self,
         FitlerItemClass=SpectrumFilterItem
@@ -85,5 +88,6 @@ class ParamJsonFilterLoader(AbstractFilterLoader):
         if json_filters is None:
             return None
         for filter in json_filters:
-            filters.append(self.FilterItemClass(filter["key"], filter["instruction"], filter["value"]))
+            key = self.column_names.get(filter["key"], filter["key"])
+            filters.append(self.FilterItemClass(key, filter["instruction"], filter["value"]))
         return FilterList(filters)
-- 
2.43.0


From a4ffa0bb952d938fecddb184ed1c0d537d7e1900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:52 +0000
Subject: [PATCH 59/83] fix: completed parameters do not share their default
 continuum removal section

---
 pylibamazed/python/pylibamazed/ParametersExtender.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersExtender.py b/pylibamazed/python/pylibamazed/ParametersExtender.py
index a9948eb..c0f39f5 100644
--- a/pylibamazed/python/pylibamazed/ParametersExtender.py
+++ b/pylibamazed/python/pylibamazed/ParametersExtender.py
@@ -81,14 +81,15 @@ class ParametersExtender:
     def _extend_continuum_removal(self):
         is_present = self.checker.continuum_removal_presence_condition()
         if not is_present:
-            self.extended_accessor.parameters["continuumRemoval"] = self.default_continuum_removal_section
+            self.extended_accessor.parameters["continuumRemoval"] = \
+                self.default_continuum_removal_section.copy()
 
     def _extend_template_catalog_continuum_removal(self):
         is_present = self.checker.template_catalog_continuum_removal_presence_condition()
         if not is_present:
             self.extended_accessor.get_template_catalog_section(True)
             self.extended_accessor.get_template_catalog_section()["continuumRemoval"] = \
-                self.default_continuum_removal_section
+                self.default_continuum_removal_section.copy()
 
     def _extend_continuum_reestimation(self):
         for spectrum_model in self.initial_accessor.get_spectrum_models([]):
-- 
2.43.0


From 0881428c2c67220b1077f37600a0eaf94e26185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:33 +0000
Subject: [PATCH 60/83] fix: version 1 parameters: names and paths given by the
 user are not renamed

---
 .../python/pylibamazed/ParametersConverter.py | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersConverter.py b/pylibamazed/python/pylibamazed/ParametersConverter.py
index 17b36ac..2c3cd3e 100644
--- a/pylibamazed/python/pylibamazed/ParametersConverter.py
+++ b/pylibamazed/python/pylibamazed/ParametersConverter.py
@@ -36,7 +36,7 @@
 # The fact that you are presently reading this means that you have had
 # knowledge of the CeCILL-C license and that you accept its terms.
 # ============================================================================
-import json
+import copy
 from abc import ABC, abstractmethod
 
 import pandas as pd
@@ -80,20 +80,32 @@ class ParametersConverterV2(ParametersConverter):
 
 
 class ParametersConverterV1(ParametersConverter):
+    # keys whose values are names or paths given by the user, which are never renamed
+    free_text_keys = ["additional_cols", "photometryBand", "photometryTransmissionDir", "calibrationDir", "key",
+                      "value", "template_dir", "reliability_model", "linecatalog", "tplratio_catalog",
+                      "catalog_dirpath", "GaussianVariablewidthFileName"]
+
     def convert(self, raw_params: dict) -> dict:
-        params = raw_params.copy()
-        params_str = json.dumps(params)
         renaming_df = pd.read_csv(v1_to_treed_filename)
-        for _, row in renaming_df.iterrows():
-            params_str = params_str.replace(
-                f"\"{row.loc['old_name']}\"", f"\"{row.loc['new_name']}\"")
-        renamed_params = json.loads(params_str)
+        new_names = dict(zip(renaming_df["old_name"], renaming_df["new_name"]))
+        renamed_params = self._rename(raw_params, new_names)
 
         self.update_redshift_part(renamed_params)
         self.update_linemeas_part(renamed_params)
         self.update_reliability_part(renamed_params)
         return renamed_params
 
+    def _rename(self, node, new_names: dict):
+        if isinstance(node, dict):
+            return {
+                new_names.get(key, key): copy.deepcopy(value) if key in self.free_text_keys
+                else self._rename(value, new_names)
+                for key, value in node.items()
+            }
+        if isinstance(node, list):
+            return [self._rename(item, new_names) for item in node]
+        return new_names.get(node, node) if isinstance(node, str) else node
+
     def update_redshift_part(self, renamed_params):
         redshift_methods = ["lineModelSolve", "templateFittingSolve", "tplCombinationSolve"]
         for spectrum_model in renamed_params.get("spectrumModels", []):
-- 
2.43.0


From 1395a76b5830cbe5e7a703329517fdedf7a35acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:30 +0000
Subject: [PATCH 61/83] fix: a first pass extremaCount of 0 is lower than
 extremaCount

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index c9c27b2..0879689 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -533,7 +533,7 @@ class ParametersChecker:
     def _check_linemodelsolve_firstpass_extremacount(self, spectrum_model: str):
         lm_extremacount = self.accessor.get_linemodel_extremacount(spectrum_model)
         fp_extremacount = self.accessor.get_linemodel_firstpass_extremacount(spectrum_model)
-        if lm_extremacount and fp_extremacount:
+        if lm_extremacount is not None and fp_extremacount is not None:
             if fp_extremacount < lm_extremacount:
                 raise APIException(
                     ErrorCode.INVALID_PARAMETER_FILE,
-- 
2.43.0


From 173db1073c9c05c87892b2269b2294775c5c3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:05 +0000
Subject: [PATCH 62/83] fix: template fitting of the spectrum without its
 continuum: the component is named noContinuum, as everywhere else

---
 RedshiftLibrary/src/lib/method/templatefittingsolve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
index 9c776a2..12e02d5 100644
--- a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
@@ -128,7 +128,7 @@ std::shared_ptr<CSolveResult> CTemplateFittingSolve::compute() {
   EType _type = nType_raw;
   if (opt_spcComponent == "raw") {
     _type = nType_raw;
-  } else if (opt_spcComponent == "nocontinuum") {
+  } else if (opt_spcComponent == "noContinuum") {
     _type = nType_noContinuum;
     scopeStr = "templatefitting_nocontinuum";
   } else if (opt_spcComponent == "continuum") {
-- 
2.43.0


From d65df29610d4cabbd1d808922a7025f3ef154f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 63/83] fix: results read from the store: a rank that no
 candidate has is refused (it was read past the end)

---
 pylibamazed/python/pylibamazed/ResultStoreOutput.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylibamazed/python/pylibamazed/ResultStoreOutput.py b/pylibamazed/python/pylibamazed/ResultStoreOutput.py
index e5fa651..0acc7aa 100644
--- a/pylibamazed/python/pylibamazed/ResultStoreOutput.py
+++ b/pylibamazed/python/pylibamazed/ResultStoreOutput.py
@@ -240,6 +240,9 @@ class ResultStoreOutput(AbstractOutput):
                           method,
                           attribute_info.ResultStore_key)
         elif attribute_info.level == "candidate":
+            if rank not in range(self.results_store.getNbRedshiftCandidates(object_type, stage, method)):
+                raise APIException(ErrorCode.OUTPUT_READER_ERROR,
+                                   f"No candidate of rank {rank} for {object_type}")
             or_type = self.results_store.GetCandidateResultType(object_type,
                                                                 stage,
                                                                 method,
-- 
2.43.0


From 6c19c8f18cec743f424266d49854016eec4dc333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 64/83] fix: the output of a source that failed is not read
 from the results of the next ones

---
 .../python/pylibamazed/AbstractOutput.py      | 19 +++++++++++--------
 pylibamazed/python/pylibamazed/ProcessFlow.py |  2 +-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/AbstractOutput.py b/pylibamazed/python/pylibamazed/AbstractOutput.py
index 7e7d3d2..ac8b7ce 100644
--- a/pylibamazed/python/pylibamazed/AbstractOutput.py
+++ b/pylibamazed/python/pylibamazed/AbstractOutput.py
@@ -115,14 +115,17 @@ class AbstractOutput:
             return stage
 
     def load_all(self):
-        self.load_root()
-        if self.has_error(None, "init"):
-            return
-        for object_type in self.object_types:
-            self.load_object_level(object_type)
-            self.load_method_level(object_type)
-            self.load_candidate_level(object_type)
-        self.cache = True
+        try:
+            self.load_root()
+            if self.has_error(None, "init"):
+                return
+            for object_type in self.object_types:
+                self.load_object_level(object_type)
+                self.load_method_level(object_type)
+                self.load_candidate_level(object_type)
+        finally:
+            # from now on the source is not read anymore: it may hold the results of another spectrum
+            self.cache = True
 
     def get_attribute_short(self, attribute: str, lines_ids, pdf_builder=None):
 
diff --git a/pylibamazed/python/pylibamazed/ProcessFlow.py b/pylibamazed/python/pylibamazed/ProcessFlow.py
index f146f5c..689a4c5 100644
--- a/pylibamazed/python/pylibamazed/ProcessFlow.py
+++ b/pylibamazed/python/pylibamazed/ProcessFlow.py
@@ -130,7 +130,7 @@ class ProcessFlow:
             with self.store_flags_handler(name="init_warningFlag"):
                 self.initialize(rso, spectrum_reader)
         except ProcessFlowException:
-            rso.load_root()
+            rso.load_all()
             return rso
 
         # loop on spectrum models (galaxy, star, qso, ...)
-- 
2.43.0


From a539e9a370736812e55d29ac4b3fd74693c885c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:33 +0000
Subject: [PATCH 65/83] fix: template fitting that fails gives the templates
 and the spectra back as they were: the other spectrum models use them

---
 .../src/lib/method/templatefittingsolve.cpp   | 19 ++++++++++++++-----
 .../src/lib/method/tplcombinationsolve.cpp    | 18 ++++++++++--------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
index 12e02d5..1d2e202 100644
--- a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
@@ -36,6 +36,8 @@
 // The fact that you are presently reading this means that you have had
 // knowledge of the CeCILL-C license and that you accept its terms.
 // ============================================================================
+#include <boost/scope_exit.hpp>
+
 #include "RedshiftLibrary/method/templatefittingsolve.h"
 #include "RedshiftLibrary/method/templatefittingsolveresult.h"
 
@@ -99,6 +101,10 @@ std::shared_ptr<CSolveResult> CTemplateFittingSolve::compute() {
            "fftProcessing not "
            "implemented with photometry enabled");
 
+  // the next solvers have to find the original templates, even if this one
+  // fails
+  BOOST_SCOPE_EXIT_ALL(&tplCatalog) { tplCatalog.resetCatalogState(); };
+
   if (fft_processing) {
     m_templateFittingOperator =
         std::make_shared<COperatorTemplateFittingLog>(m_redshifts);
@@ -237,6 +243,14 @@ void CTemplateFittingSolve::Solve(
     save_spcTypes.push_back(spc->GetType());
   const CSpectrum::EType save_tplType = tpl->GetType();
 
+  // restore the component types, even if the fit fails
+  BOOST_SCOPE_EXIT_ALL(&save_spcTypes, &tpl, save_tplType) {
+    Int32 i = 0;
+    for (auto spc : Context.getSpectra())
+      spc->SetType(save_spcTypes[i++]);
+    tpl->SetType(save_tplType);
+  };
+
   for (Int32 i = 0; i < _ntype; i++) {
     if (spctype == nType_all) {
       _spctype = _spctypetab[i];
@@ -281,11 +295,6 @@ void CTemplateFittingSolve::Solve(
     resultStore->StoreScopedPerTemplateResult(tpl, scopeStr.c_str(),
                                               templateFittingResult);
   }
-
-  int i = 0;
-  for (auto spc : Context.getSpectra())
-    spc->SetType(save_spcTypes[i++]);
-  tpl->SetType(save_tplType);
 }
 
 ChisquareArray CTemplateFittingSolve::BuildChisquareArray(
diff --git a/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp b/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp
index b8c5556..4566394 100644
--- a/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp
@@ -38,6 +38,8 @@
 // ============================================================================
 #include <cfloat>
 
+#include <boost/scope_exit.hpp>
+
 #include "RedshiftLibrary/log/log.h"
 #include "RedshiftLibrary/method/tplcombinationsolve.h"
 #include "RedshiftLibrary/method/tplcombinationsolveresult.h"
@@ -192,6 +194,14 @@ bool CTplCombinationSolve::Solve(
                    return tpl->GetType();
                  });
 
+  // restore component types, even if the fit fails
+  BOOST_SCOPE_EXIT_ALL(&spc, &tplList, &save_tplTypes, save_spcType) {
+    spc.SetType(save_spcType);
+    auto it = save_tplTypes.begin();
+    for (auto const &tpl : tplList)
+      tpl->SetType(*it++);
+  };
+
   for (Int32 i = 0; i < _ntype; i++) {
     if (spctype == nType_all)
       _spctype = _spctypetab[i];
@@ -224,14 +234,6 @@ bool CTplCombinationSolve::Solve(
     resultStore->StoreScopedGlobalResult(scopeStr.c_str(), result);
   }
 
-  // restore component types
-  spc.SetType(save_spcType);
-  auto it = save_tplTypes.begin();
-  std::for_each(tplList.begin(), tplList.end(),
-                [&it](std::shared_ptr<const NSEpic::CTemplate> tpl) {
-                  tpl->SetType(*it);
-                  it++;
-                });
   return true;
 }
 
-- 
2.43.0


From da5de67a7d03cf42c6556344e8715b7b7edca68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:06 +0000
Subject: [PATCH 66/83] fix: results of a single line can be written: their
 text columns of one row have no HDF5 type of their own

---
 pylibamazed/python/pylibamazed/H5Writer.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/H5Writer.py b/pylibamazed/python/pylibamazed/H5Writer.py
index 5f6a00b..3e8b1e7 100644
--- a/pylibamazed/python/pylibamazed/H5Writer.py
+++ b/pylibamazed/python/pylibamazed/H5Writer.py
@@ -37,6 +37,8 @@
 # knowledge of the CeCILL-C license and that you accept its terms.
 # ============================================================================
 
+import h5py
+import numpy as np
 import pandas as pd
 from pylibamazed.AbstractOutput import root_stages, spectrum_model_stages
 from pylibamazed.Exception import APIException
@@ -64,6 +66,15 @@ def _create_dataset_from_dict(h5_node, name, source, compress=False):
                            compression="lzf")
 
 
+def _create_group_from_dict(h5_node, name, source):
+    group = h5_node.create_group(name)
+    for attr_name, attr in source.items():
+        if isinstance(attr, np.ndarray) and attr.dtype.kind == "U":
+            # the fixed-width unicode strings of numpy have no HDF5 type
+            attr = attr.astype(h5py.special_dtype(vlen=str))
+        group.attrs[attr_name] = attr
+
+
 class H5Writer():
 
     def __init__(self, output):
@@ -90,9 +101,7 @@ class H5Writer():
                                           ds,
                                           dataset)
             else:
-                object_results_node.create_group(ds)
-                for attr_name, attr in dataset.items():
-                    object_results_node.get(ds).attrs[attr_name] = attr
+                _create_group_from_dict(object_results_node, ds, dataset)
 
     def write_hdf5_candidate_level(self, object_type, object_results_node):
         if self.output.parameters.get_redshift_solver_method(object_type):
@@ -111,9 +120,7 @@ class H5Writer():
                     if ds_dim == 0:
                         continue
                     elif ds_dim == 1:
-                        candidate.create_group(ds)
-                        for attr_name, attr in dataset.items():
-                            candidate.get(ds).attrs[attr_name] = attr
+                        _create_group_from_dict(candidate, ds, dataset)
                     else:
                         try:
                             _create_dataset_from_dict(candidate,
-- 
2.43.0


From da7c5666c97ad7f11758d558b93e18fe5ad8ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:51 +0000
Subject: [PATCH 67/83] fix: attributes of a line by its name: the row of
 another line was given when two line catalogs differ

---
 pylibamazed/python/pylibamazed/AbstractOutput.py     | 3 ++-
 pylibamazed/python/pylibamazed/CalibrationLibrary.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/AbstractOutput.py b/pylibamazed/python/pylibamazed/AbstractOutput.py
index ac8b7ce..80e0b46 100644
--- a/pylibamazed/python/pylibamazed/AbstractOutput.py
+++ b/pylibamazed/python/pylibamazed/AbstractOutput.py
@@ -191,7 +191,8 @@ class AbstractOutput:
                 df = pd.DataFrame(
                     {"idx": fitted_lines_idx, col_name: fitted_lines_attr}
                 ).set_index("idx")
-                return df.at[lines_ids[line_name], col_name]
+                line_id = lines_ids.get((object_type, dataset, line_name), lines_ids[line_name])
+                return df.at[line_id, col_name]
             return None
 
     def get_pdf_attribute(self, object_type, attribute, pdf_builder):
diff --git a/pylibamazed/python/pylibamazed/CalibrationLibrary.py b/pylibamazed/python/pylibamazed/CalibrationLibrary.py
index ed0ef2a..0a359d7 100644
--- a/pylibamazed/python/pylibamazed/CalibrationLibrary.py
+++ b/pylibamazed/python/pylibamazed/CalibrationLibrary.py
@@ -495,10 +495,12 @@ class CalibrationLibrary:
             raise Exception(f"Could not find {line_ratio_catalog} in tpl ratio catalog")
 
     def get_lines_ids(self, attributes):
+        # ids by line name, and by object, dataset and line name: the catalogs of two objects or methods
+        # may give different ids to the same line
         lines_ids = dict()
-        lines = None
         specs = ResultsSpecifications()
         for attr in attributes:
+            lines = None
             attr_parts = attr.split(".")
             if (
                 len(attr_parts) == 1
@@ -534,6 +536,7 @@ class CalibrationLibrary:
                     line_name = attr_parts[1]
                     line_id = lines[lines["Name"] == line_name].index[0]
                     lines_ids[line_name] = line_id
+                    lines_ids[(linemeas_object, dataset, line_name)] = line_id
                 except Exception:
                     raise Exception(f"Could not find {line_name} in catalog")
         return lines_ids
-- 
2.43.0


From 1721afc2d5a11b0d33eba54e9972e533c3a103fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 68/83] fix: model of a template combination stored under the
 observation it was computed for (it was lost with several observations)

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index e3b4a5c..e19f5d7 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -660,7 +660,8 @@ COperatorTplcombination::ComputeSpectrumModel(
   m_masksRebined_bf.clear();
   std::shared_ptr<CModelSpectrumResult> ret =
       std::make_shared<CModelSpectrumResult>();
-  ret->addModel(CSpectrum(std::move(modelSpcAxis), std::move(modelFlux)), "");
+  ret->addModel(CSpectrum(std::move(modelSpcAxis), std::move(modelFlux)),
+                spectrum.getObsID());
   return ret;
 }
 
-- 
2.43.0


From 9cfed737270a2095f87220d9ff8710fe0afaa4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:03 +0000
Subject: [PATCH 69/83] fix: models of the measured lines stored for each
 observation, under its name (they were lost with several observations)

---
 RedshiftLibrary/RedshiftLibrary/operator/linemodel.h |  4 ++--
 RedshiftLibrary/src/lib/method/linemeassolve.cpp     |  4 +---
 RedshiftLibrary/src/lib/operator/linemodel.cpp       | 12 ++++++++----
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/operator/linemodel.h b/RedshiftLibrary/RedshiftLibrary/operator/linemodel.h
index 0934510..96244bd 100644
--- a/RedshiftLibrary/RedshiftLibrary/operator/linemodel.h
+++ b/RedshiftLibrary/RedshiftLibrary/operator/linemodel.h
@@ -129,8 +129,8 @@ public:
                    Float64 redshift);
 
   void setHapriorOption(Int32 opt);
-  const CSpectrum &
-  getFittedModelWithoutcontinuum(const CLineModelSolution &bestModelSolution);
+  std::shared_ptr<CModelSpectrumResult>
+  getFittedModelsWithoutcontinuum(const CLineModelSolution &bestModelSolution);
   TZGridListParams getSPZGridParams();
 
 private:
diff --git a/RedshiftLibrary/src/lib/method/linemeassolve.cpp b/RedshiftLibrary/src/lib/method/linemeassolve.cpp
index 5a6f657..2e4f9d2 100644
--- a/RedshiftLibrary/src/lib/method/linemeassolve.cpp
+++ b/RedshiftLibrary/src/lib/method/linemeassolve.cpp
@@ -87,9 +87,7 @@ std::shared_ptr<CSolveResult> CLineMeasSolve::compute() {
   }
 
   std::shared_ptr<CModelSpectrumResult> modelspc =
-      std::make_shared<CModelSpectrumResult>();
-  modelspc->addModel(
-      m_linemodel.getFittedModelWithoutcontinuum(bestModelSolution), "");
+      m_linemodel.getFittedModelsWithoutcontinuum(bestModelSolution);
   std::shared_ptr<const CLineModelSolution> res =
       std::make_shared<CLineModelSolution>(std::move(bestModelSolution));
   resultStore->StoreScopedGlobalResult("linemeas", res);
diff --git a/RedshiftLibrary/src/lib/operator/linemodel.cpp b/RedshiftLibrary/src/lib/operator/linemodel.cpp
index e074a56..ee8e1f5 100644
--- a/RedshiftLibrary/src/lib/operator/linemodel.cpp
+++ b/RedshiftLibrary/src/lib/operator/linemodel.cpp
@@ -1807,13 +1807,17 @@ CLineModelSolution COperatorLineModel::computeForLineMeas(
  * @param bestModelSolution : linemodel solution corresponding to the best Z
  * @return std::shared_ptr<const CModelSpectrumResult>
  */
-const CSpectrum &COperatorLineModel::getFittedModelWithoutcontinuum(
+std::shared_ptr<CModelSpectrumResult>
+COperatorLineModel::getFittedModelsWithoutcontinuum(
     const CLineModelSolution &bestModelSolution) {
   // make sure polynom info are correctly set. it s up to refresh model to use
   // these coeffs
   m_fittingManager->LoadModelSolution(bestModelSolution);
   m_fittingManager->refreshAllModels();
-  m_fittingManager->getSpectraIndex()
-      .reset(); // TODO dummy implementation, should return all models
-  return m_fittingManager->getSpectrumModel().GetModelSpectrum();
+  auto models = std::make_shared<CModelSpectrumResult>();
+  for (auto &obs : m_fittingManager->getSpectraIndex())
+    models->addModel(m_fittingManager->getSpectrumModel().GetModelSpectrum(),
+                     m_fittingManager->getSpectrum().getObsID());
+  m_fittingManager->getSpectraIndex().reset();
+  return models;
 }
-- 
2.43.0


From 387e261e0843a15f54dea7c994bfe2c74ead341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 70/83] fix: the log-rebinned spectra keep the observation they
 come from: the models of the fft template fitting were lost with several
 observations

---
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index c45185f..7352c4c 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -244,6 +244,7 @@ void CInputContext::Init() {
       rebinedSpectrum_ptr->ValidateSpectrum(*lambdaRange_ptr,
                                             enableInputSpcCorrect);
       rebinedSpectrum_ptr->SetLSF(spectrum_ptr->GetLSF());
+      rebinedSpectrum_ptr->setObsID(spectrum_ptr->getObsID());
     }
   }
   // template orthogonalisation with linemodel
-- 
2.43.0


From 3265d4fe5d4c1190508afba4856e02b5219164a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:23 +0000
Subject: [PATCH 71/83] fix: last sample of the wavelength range counted in the
 merit, the norms and the number of samples of the line model

---
 .../src/lib/linemodel/linemodelfitting.cpp    | 44 ++++++++++---------
 .../src/lib/linemodel/lineratiomanager.cpp    | 12 ++---
 2 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index 254a1b7..3796212 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -495,12 +495,14 @@ Float64 CLineModelFitting::getOutsideLinesSTD(Int32 which) const {
   const CSpectrumSpectralAxis &spectralAxis = getSpectrum().GetSpectralAxis();
   Float64 sum2 = 0.0;
   Int32 nsum = 0;
-  Int32 imin = spectralAxis.GetIndexAtWaveLength(getLambdaRange().GetBegin());
-  Int32 imax = spectralAxis.GetIndexAtWaveLength(getLambdaRange().GetEnd());
+  Int32 imin;
+  Int32 imax;
+  getLambdaRange().getClosedIntervalIndices(spectralAxis.GetSamplesVector(),
+                                            imin, imax);
   const auto &spcFluxAxisNoContinuum =
       getSpectrumModel().getSpcFluxAxisNoContinuum();
   const auto &ErrorNoContinuum = getSpectrum().GetErrorAxis();
-  for (Int32 i = imin; i < imax; i++) {
+  for (Int32 i = imin; i <= imax; i++) {
     if (!_mask[i])
       continue;
 
@@ -529,11 +531,11 @@ Float64 CLineModelFitting::getLeastSquareContinuumMerit() const {
     const CSpectrumFluxAxis &YCont = getSpectrumModel().getContinuumFluxAxis();
     Float64 diff = 0.0;
 
-    Float64 imin =
-        spcSpectralAxis.GetIndexAtWaveLength(getLambdaRange().GetBegin());
-    Float64 imax =
-        spcSpectralAxis.GetIndexAtWaveLength(getLambdaRange().GetEnd());
-    for (Int32 j = imin; j < imax; j++) {
+    Int32 imin;
+    Int32 imax;
+    getLambdaRange().getClosedIntervalIndices(
+        spcSpectralAxis.GetSamplesVector(), imin, imax);
+    for (Int32 j = imin; j <= imax; j++) {
       diff = (Yspc[j] - YCont[j]);
       fit += (diff * diff) / (ErrorNoContinuum[j] * ErrorNoContinuum[j]);
     }
@@ -576,9 +578,9 @@ Int32 CLineModelFitting::computeSpcNSamples() const {
   for (auto &spcIndex : m_spectraIndex) {
     const CSpectrumSpectralAxis &spcSpectralAxis =
         getSpectrum().GetSpectralAxis();
-    imin = spcSpectralAxis.GetIndexAtWaveLength(getLambdaRange().GetBegin());
-    imax = spcSpectralAxis.GetIndexAtWaveLength(getLambdaRange().GetEnd());
-    nSamples += abs(imax - imin);
+    getLambdaRange().getClosedIntervalIndices(
+        spcSpectralAxis.GetSamplesVector(), imin, imax);
+    nSamples += imax - imin + 1;
   }
 
   return nSamples;
@@ -1094,11 +1096,11 @@ CLineModelFitting::EstimateDTransposeD(const std::string &spcComponent) const {
         getSpectrumModel().getSpcFluxAxisNoContinuum();
     const auto &ErrorNoContinuum = getSpectrum().GetErrorAxis();
 
-    Float64 imin =
-        spcSpectralAxis.GetIndexAtWaveLength(getLambdaRange().GetBegin());
-    Float64 imax =
-        spcSpectralAxis.GetIndexAtWaveLength(getLambdaRange().GetEnd());
-    for (Int32 j = imin; j < imax; j++) {
+    Int32 imin;
+    Int32 imax;
+    getLambdaRange().getClosedIntervalIndices(
+        spcSpectralAxis.GetSamplesVector(), imin, imax);
+    for (Int32 j = imin; j <= imax; j++) {
       if (spcComponent == "noContinuum")
         flux = YspcNoContinuum[j];
       else
@@ -1129,11 +1131,11 @@ Float64 CLineModelFitting::EstimateMTransposeM()
 
     Float64 diff = 0.0;
 
-    Float64 imin =
-        spcSpectralAxis.GetIndexAtWaveLength(getLambdaRange().GetBegin());
-    Float64 imax =
-        spcSpectralAxis.GetIndexAtWaveLength(getLambdaRange().GetEnd());
-    for (Int32 j = imin; j < imax; j++) {
+    Int32 imin;
+    Int32 imax;
+    getLambdaRange().getClosedIntervalIndices(
+        spcSpectralAxis.GetSamplesVector(), imin, imax);
+    for (Int32 j = imin; j <= imax; j++) {
       diff = spcFluxAxis[j];
       mtm += (diff * diff) / (ErrorNoContinuum[j] * ErrorNoContinuum[j]);
     }
diff --git a/RedshiftLibrary/src/lib/linemodel/lineratiomanager.cpp b/RedshiftLibrary/src/lib/linemodel/lineratiomanager.cpp
index ca2121d..e6cfcdf 100644
--- a/RedshiftLibrary/src/lib/linemodel/lineratiomanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/lineratiomanager.cpp
@@ -222,11 +222,11 @@ Float64 CLineRatioManager::getLeastSquareMerit() const {
 
     Float64 diff = 0.0;
 
-    Int32 imin =
-        spcSpectralAxis.GetIndexAtWaveLength(getLambdaRange().GetBegin());
-    Int32 imax =
-        spcSpectralAxis.GetIndexAtWaveLength(getLambdaRange().GetEnd());
-    for (Int32 j = imin; j < imax; j++) {
+    Int32 imin;
+    Int32 imax;
+    getLambdaRange().getClosedIntervalIndices(
+        spcSpectralAxis.GetSamplesVector(), imin, imax);
+    for (Int32 j = imin; j <= imax; j++) {
       diff = (Yspc[j] - Ymodel[j]);
       fit += (diff * diff) / (ErrorNoContinuum[j] * ErrorNoContinuum[j]);
     }
@@ -242,7 +242,7 @@ Float64 CLineRatioManager::getLeastSquareMerit() const {
           << "CLineModelFitting::getLeastSquareMerit: NaN value found on "
              "the true observed spectral axis lambdarange = ("
           << spcSpectralAxis[imin] << ", " << spcSpectralAxis[imax] << ")");
-      for (Int32 j = imin; j < imax; j++) {
+      for (Int32 j = imin; j <= imax; j++) {
         if (std::isnan(Yspc[j])) {
           Log.LogDetail(
               Formatter()
-- 
2.43.0


From 30d54cd7c63304c7455e906e4f6f316c3e8041d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:18 +0000
Subject: [PATCH 72/83] fix: models of all the observations refreshed before
 the merit of the line model is computed (lines were left out of all but the
 first one)

---
 RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp b/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp
index 3135228..62b8072 100644
--- a/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp
@@ -55,7 +55,7 @@ CRulesManager::CRulesManager(
 
 Float64 CRulesManager::computeMerit(Int32 iratio) {
   applyRules(true);
-  getModel().refreshModel();
+  refreshAllModels();
   return getLeastSquareMerit();
 }
 
-- 
2.43.0


From c06d1ddb6664ec3fd5d08785041280b808bf79bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:46 +0000
Subject: [PATCH 73/83] fix: supports of all the lines of a loaded line model
 solution computed at its redshift (lines outside the range at the last fitted
 redshift were missing from the model)

---
 .../src/lib/linemodel/linemodelfitting.cpp      | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index 3796212..edb8164 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -778,14 +778,19 @@ void CLineModelFitting::LoadModelSolution(
   for (auto &spcIndex : m_spectraIndex) {
     const CSpectrumSpectralAxis &spectralAxis = getSpectrum().GetSpectralAxis();
     for (Int32 iElts = 0; iElts < getElementList().size(); iElts++) {
-      getElementList()[iElts]->computeOutsideLambdaRange();
-
-      if (!getElementList()[iElts]->IsOutsideLambdaRange())
-
-        getElementList()[iElts]->prepareSupport(
-            spectralAxis, modelSolution.Redshift, getLambdaRange());
+      auto const &elt = getElementList()[iElts];
+      if (element_done[iElts]) {
+        elt->prepareSupport(spectralAxis, modelSolution.Redshift,
+                            getLambdaRange());
+        continue;
+      }
+      // all the lines of this element are outside the range in this solution
+      for (Int32 index = 0; index != elt->GetSize(); ++index)
+        elt->SetOutsideLambdaRangeList(index);
+      elt->computeOutsideLambdaRange();
     }
   }
+  m_ElementsVector->setGlobalOutsideLambdaRangeFromSpectra();
 
   return;
 }
-- 
2.43.0


From 60a0e91f902b332ec5b88e17e9c6d89905661546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:46 +0000
Subject: [PATCH 74/83] fix: amplitude of a line ratio not taken from an
 absorption line limited to its maximum (the model of the best ratio was not
 the fitted one)

---
 .../src/lib/linemodel/tplratiomanager.cpp         | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp b/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp
index 035a72e..965dd18 100644
--- a/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp
@@ -431,7 +431,6 @@ void CTplratioManager::updateTplratioResults(Int32 idx, Float64 _merit,
   // needed ?) NB: this is only needed for the index=savedIdxFitted
   // ultimately
   for (Int32 iElt = 0; iElt < s; iElt++) {
-    bool savedAmp = false;
     bool allampzero = true;
 
     for (Int32 line_idx = 0;
@@ -442,12 +441,17 @@ void CTplratioManager::updateTplratioResults(Int32 idx, Float64 _merit,
       if (isnan(amp) || amp <= 0. ||
           m_elementsVector->isOutsideLambdaRangeLine(iElt, line_idx))
         continue;
+
+      Float64 nominal_amp = m_elementsVector->getElementParam()[iElt]
+                                ->m_NominalAmplitudes[line_idx];
+      // the lines of an element have the same amplitude relative to the
+      // nominal one, but for absorption lines limited to their maximum
+      if (!allampzero && !(amp / nominal_amp > m_FittedAmpTplratio[idx][iElt]))
+        continue;
       allampzero = false;
 
       Float64 amp_error = m_elementsVector->getElementParam()[iElt]
                               ->m_FittedAmplitudesStd[line_idx];
-      Float64 nominal_amp = m_elementsVector->getElementParam()[iElt]
-                                ->m_NominalAmplitudes[line_idx];
       m_FittedAmpTplratio[idx][iElt] = amp / nominal_amp;
       Log.LogDebug(Formatter()
                    << "    model : fit tplratio mode, tplratio_fittedamp: "
@@ -468,13 +472,10 @@ void CTplratioManager::updateTplratioResults(Int32 idx, Float64 _merit,
       TSymIgmParams params_igm =
           m_elementsVector->getElementParam()[iElt]->GetSymIgmParams(0);
       m_LyaIgmIdxTplratio[idx][iElt] = params_igm.m_igmidx;
-
-      savedAmp = true;
-      break;
     }
     // TODO: this case should be treated more
     // carefully, save dtm, mtm, and more...
-    if (allampzero && !savedAmp)
+    if (allampzero)
       m_FittedAmpTplratio[idx][iElt] = 0.0;
   }
   return;
-- 
2.43.0


From 3d272f2e3a89cccdfc8ab5fd9415b851965b0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:11 +0000
Subject: [PATCH 75/83] fix: list of the first redshifts logged when a
 continuum is not found read out of a grid of less than 10 redshifts

---
 RedshiftLibrary/src/lib/linemodel/templatesfitstore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/templatesfitstore.cpp b/RedshiftLibrary/src/lib/linemodel/templatesfitstore.cpp
index cc9f2de..97fbfab 100644
--- a/RedshiftLibrary/src/lib/linemodel/templatesfitstore.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/templatesfitstore.cpp
@@ -233,7 +233,7 @@ CTemplatesFitStore::GetFitValues(Float64 redshiftVal,
                      "m_fitValues[m_fitValues.size()-1].redshift="
                   << redshiftgrid[redshiftgrid.size() - 1]);
 
-    for (Int32 k = 0; k < 10; k++)
+    for (Int32 k = 0; k < 10 && k < Int32(redshiftgrid.size()); k++)
       Log.LogDebug(Formatter()
                    << "CTemplatesFitStore::GetFitValues - redshiftVal="
                    << redshiftVal
-- 
2.43.0


From ca0412f0e1dc72b56143a0b61882458cfb3e26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:38 +0000
Subject: [PATCH 76/83] fix: errors of the spectrum weight the residual under
 the lines (those of the model, all ones, were used)

---
 RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
index 076539e..38ae2d6 100644
--- a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
@@ -390,8 +390,7 @@ CSpectrumModel::getModelSquaredResidualUnderElements(TInt32List const &EltsIdx,
   // CElementList::m_ErrorNoContinuum, a reference initialized twice in
   // CElementList constructor, first init to m_spcFluxAxisNoContinuum.GetError()
   // and after to spectrumFluxAxis.GetError
-  const CSpectrumNoiseAxis &errorNoContinuum =
-      m_SpectrumModel.GetFluxAxis().GetError();
+  const CSpectrumNoiseAxis &errorNoContinuum = m_inputSpc->GetErrorAxis();
   const CSpectrumFluxAxis &fluxRef =
       with_continuum ? getSpcFluxAxis() : getSpcFluxAxisNoContinuum();
 
-- 
2.43.0


From 07bc70f2f428fb21fc2745e54df362b691b28fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:10 +0000
Subject: [PATCH 77/83] fix: error of the flux integrated over a range (samples
 shared by two trapezoids counted as independent, error too small by a factor
 of up to the square root of two)

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 095b4b7..0da9ef1 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -725,9 +725,13 @@ std::pair<Float64, Float64> CSpectrum::integrateFluxes_usingTrapez(
       Float64 trapweight = (spectralAxis[t + 1] - spectralAxis[t]) * 0.5;
       sumFlux += trapweight * (fluxAxis[t + 1] + fluxAxis[t]);
 
-      Float64 ea = Error[t] * Error[t];
-      Float64 eb = Error[t + 1] * Error[t + 1];
-      sumErr += trapweight * trapweight * (eb + ea);
+    }
+    // a sample shared by two trapezoids counts with the sum of their weights
+    for (Int32 t = r.GetBegin(), e = r.GetEnd(); t <= e; t++) {
+      Float64 const left = spectralAxis[std::max(t - 1, r.GetBegin())];
+      Float64 const right = spectralAxis[std::min(t + 1, e)];
+      Float64 const weightedErr = (right - left) * 0.5 * Error[t];
+      sumErr += weightedErr * weightedErr;
     }
   }
   return std::make_pair(sumFlux, sumErr);
-- 
2.43.0


From da036899f9ed164d35df317e2d4d327dfab3de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:14 +0000
Subject: [PATCH 78/83] fix: absorption lines subtracted in the direct
 integration of the flux of an emission line (only the continuum was, and
 nothing outside the support of the line)

---
 RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
index 38ae2d6..05fbbd3 100644
--- a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
@@ -527,8 +527,9 @@ CSpectrumModel::getContinuumUnderLines(const TInt32RangeList &indexRangeList,
 
   CSpectrumFluxAxis absLinesModelFlux;
   if (substract_abslinesmodel)
-    absLinesModelFlux = getModel(
-        eIdx_list, CLine::EType::nType_Absorption); // contains the continuum
+    absLinesModelFlux =
+        getModel(m_Elements->GetModelValidElementsIndexes(),
+                 CLine::EType::nType_Absorption); // contains the continuum
 
   CSpectrumFluxAxis ampOffsetModelFlux;
   if (m_enableAmplitudeOffsets) {
@@ -643,13 +644,10 @@ CSpectrumFluxAxis CSpectrumModel::getModel(const TInt32List &eIdx_list,
                                            CLine::EType lineTypeFilter) const {
 
   const CSpectrumSpectralAxis &spectralAxis = m_SpectrumModel.GetSpectralAxis();
-  CSpectrumFluxAxis modelfluxAxis(spectralAxis.GetSamplesCount());
+  CSpectrumFluxAxis modelfluxAxis = getContinuumFluxAxis();
 
-  Int32 nElements = m_Elements->size();
   for (Int32 eIdx : eIdx_list) {
     const auto &elt = (*m_Elements)[eIdx];
-    elt->initSpectrumModel(modelfluxAxis, getContinuumFluxAxis());
-
     auto const lineType = elt->getElementParam()->GetElementType();
     if (lineTypeFilter == CLine::EType::nType_All || lineTypeFilter == lineType)
       elt->addToSpectrumModel(spectralAxis, modelfluxAxis,
-- 
2.43.0


From 8c7f3a13de21b8d2478930a9bf2934cf1265cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:14 +0000
Subject: [PATCH 79/83] fix: continuum (and not the model with its lines)
 blended under the lines of the spectrum with all its lines removed

---
 RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
index 05fbbd3..ff534ad 100644
--- a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
@@ -219,7 +219,11 @@ CSpectrum CSpectrumModel::GetObservedSpectrumWithLinesRemoved(
     refreshModel(CLine::EType::nType_Absorption);
   else if (lineTypeFilter == CLine::EType::nType_Absorption)
     refreshModel(CLine::EType::nType_Emission);
-  TFloat64List fluxAndContinuum = fluxAxis.GetSamplesVector();
+  // without any filter, only the continuum remains below the lines
+  TFloat64List fluxAndContinuum =
+      lineTypeFilter == CLine::EType::nType_All
+          ? m_ContinuumFluxAxis.GetSamplesVector()
+          : fluxAxis.GetSamplesVector();
 
   refreshModel(lineTypeFilter);
 
-- 
2.43.0


From 8146c0877aa8f26a1aab68bab909d78f70251c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:49 +0000
Subject: [PATCH 80/83] fix: samples shared by the supports of several lines
 counted once in the cumulated signal to noise, whatever the order of the
 lines

---
 .../src/lib/linemodel/linemodelfitting.cpp    | 45 +++++++------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index edb8164..925cc63 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -36,6 +36,7 @@
 // The fact that you are presently reading this means that you have had
 // knowledge of the CeCILL-C license and that you accept its terms.
 // ============================================================================
+#include <algorithm>
 #include <climits>
 #include <cmath>
 #include <memory>
@@ -612,40 +613,24 @@ std::pair<Float64, Float64> CLineModelFitting::getCumulSNRStrongEL() const {
     }
   }
 
-  // merge overlapping ranges
+  // merge overlapping ranges, starting with the bluest one
+  TInt32List order(supportList.size());
+  std::iota(order.begin(), order.end(), 0);
+  std::sort(order.begin(), order.end(), [&supportList](Int32 k, Int32 l) {
+    return supportList[k].GetBegin() < supportList[l].GetBegin();
+  });
   TInt32RangeList nonOverlappingSupportList;
   TBoolList nonOverlappingIsStrongList;
-  TInt32List processedSupport;
-  for (Int32 k = 0; k < supportList.size(); k++) {
-    // skip if already fitted
-    if (std::find(processedSupport.cbegin(), processedSupport.cend(), k) !=
-        processedSupport.cend())
+  for (Int32 k : order) {
+    auto const &support = supportList[k];
+    if (!nonOverlappingSupportList.empty() &&
+        support.GetBegin() <= nonOverlappingSupportList.back().GetEnd()) {
+      auto &last = nonOverlappingSupportList.back();
+      last.SetEnd(std::max(last.GetEnd(), support.GetEnd()));
+      nonOverlappingIsStrongList.back() =
+          nonOverlappingIsStrongList.back() || isStrongList[k];
       continue;
-
-    processedSupport.push_back(k);
-    TInt32Range &support = supportList[k];
-
-    for (Int32 l = k + 1; l < supportList.size(); l++) {
-      // skip if already fitted
-      if (std::find(processedSupport.cbegin(), processedSupport.cend(), l) !=
-          processedSupport.cend())
-        continue;
-
-      // try if current range is bluer than l and overlaps ?
-      Float64 const xinf = support.GetBegin();
-      Float64 const xsup = support.GetEnd();
-      Float64 const yinf = supportList[l].GetBegin();
-      Float64 const ysup = supportList[l].GetEnd();
-      Float64 const max = std::max(xinf, yinf);
-      Float64 const min = std::min(xsup, ysup);
-      if (max - min < 0) {
-        processedSupport.push_back(l);
-        support.SetBegin(std::min(xinf, yinf));
-        support.SetEnd(std::max(xsup, ysup));
-        isStrongList[k] = isStrongList[k] || isStrongList[l];
-      }
     }
-
     nonOverlappingSupportList.push_back(support);
     nonOverlappingIsStrongList.push_back(isStrongList[k]);
   }
-- 
2.43.0


From 64d1342d07d11baeda97d4b09e11d3c6029c615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:47 +0000
Subject: [PATCH 81/83] fix: joint fit of the Balmer lines failed with an
 invalid spectrum index (as soon as an emission and an absorption line were
 visible)

---
 RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
index 452faf0..46380e0 100644
--- a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
@@ -271,6 +271,7 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
     // simulatneous fit with linsolve
     Float64 modelErr_init =
         getModelResidualRmsUnderElements({iElt_lineA}, true);
+    m_spectraIndex.reset(); // temporary multiobs implementation
     Float64 ampA = getElementParam()[iElt_lineA]->GetFittedAmplitude(lineA_id);
     Float64 amp_errorA =
         getElementParam()[iElt_lineA]->GetFittedAmplitudeStd(lineA_id);
@@ -301,6 +302,7 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
     getModel().refreshModelUnderElements(eltsIdx);
     Float64 modelErr_withfit =
         getModelResidualRmsUnderElements({iElt_lineA}, true);
+    m_spectraIndex.reset(); // temporary multiobs implementation
     if (modelErr_withfit > modelErr_init) {
       Float64 nominal_ampA =
           getElementParam()[iElt_lineA]->GetNominalAmplitude(lineA_id);
-- 
2.43.0


From 6720ea11f44472f33d91ff894eed9b6223b461a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:58 +0000
Subject: [PATCH 82/83] fix: amplitudes of the joint fit of the Balmer lines
 not negative

---
 RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
index 46380e0..03eca4b 100644
--- a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
@@ -294,9 +294,7 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
     for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
       eltsIdx.push_back(ilinesMore[imore]);
     }
-    TFloat64List ampsfitted;
-    TFloat64List errorsfitted;
-    fitAmplitudesLinSolve(eltsIdx, ampsfitted, errorsfitted, redshift);
+    fitAmplitudesLinSolvePositive(eltsIdx, redshift);
 
     // decide if the fit is better than previous amps
     getModel().refreshModelUnderElements(eltsIdx);
-- 
2.43.0


From 76a1ba5dc8356c9691e2bb9fa15b2f68cc1d1bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:04 +0000
Subject: [PATCH 83/83] fix: models compared by the joint fit of the Balmer
 lines up to date, and previous amplitudes of its [NII] lines restored

---
 .../src/lib/linemodel/hybridfitter.cpp        | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
index 03eca4b..b6f3a3e 100644
--- a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
@@ -228,23 +228,23 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
       continue;
     }
 
-    // check if line is visible:
-    if (getElementList()[iElt_lineE]->IsOutsideLambdaRange())
+    // check if lines are visible:
+    if (getElementList()[iElt_lineE]->IsOutsideLambdaRange() ||
+        getElementList()[iElt_lineA]->IsOutsideLambdaRange())
       continue;
 
     // find the linesMore unique elements indexes
     TInt32List ilinesMore;
-    TInt32List linesMoreIds;
     for (Int32 imore = 0; imore < linetagsMore[itag].size(); imore++) {
       std::string tagMore = linetagsMore[itag][imore];
       auto const &[iElt_lineMore, lineMore_id] =
           m_ElementsVector->findElementIndex(tagMore,
                                              CLine::EType::nType_Emission);
-      if (iElt_lineMore == undefIdx)
+      if (iElt_lineMore == undefIdx ||
+          getElementList()[iElt_lineMore]->IsOutsideLambdaRange())
         continue;
 
       ilinesMore.push_back(iElt_lineMore);
-      linesMoreIds.push_back(lineMore_id);
     }
     std::sort(ilinesMore.begin(), ilinesMore.end());
     ilinesMore.erase(std::unique(ilinesMore.begin(), ilinesMore.end()),
@@ -269,6 +269,7 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
     }
 
     // simulatneous fit with linsolve
+    getModel().refreshModel();
     Float64 modelErr_init =
         getModelResidualRmsUnderElements({iElt_lineA}, true);
     m_spectraIndex.reset(); // temporary multiobs implementation
@@ -281,11 +282,9 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
     TFloat64List ampsMore;
     TFloat64List ampErrorsMore;
     for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
-      Float64 amp = getElementParam()[ilinesMore[imore]]->GetFittedAmplitude(0);
-      Float64 ampErr =
-          getElementParam()[ilinesMore[imore]]->GetFittedAmplitudeStd(0);
-      ampsMore.push_back(amp);
-      ampErrorsMore.push_back(ampErr);
+      auto const &elt = getElementList()[ilinesMore[imore]];
+      ampsMore.push_back(elt->GetElementAmplitude());
+      ampErrorsMore.push_back(elt->GetElementError());
     }
 
     TInt32List eltsIdx;
@@ -297,7 +296,7 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
     fitAmplitudesLinSolvePositive(eltsIdx, redshift);
 
     // decide if the fit is better than previous amps
-    getModel().refreshModelUnderElements(eltsIdx);
+    getModel().refreshModel();
     Float64 modelErr_withfit =
         getModelResidualRmsUnderElements({iElt_lineA}, true);
     m_spectraIndex.reset(); // temporary multiobs implementation
@@ -311,12 +310,8 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
       m_ElementsVector->SetElementAmplitude(iElt_lineE, ampE / nominal_ampE,
                                             amp_errorE / nominal_ampE);
       for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
-        Float64 nominal_ampMore =
-            getElementParam()[ilinesMore[imore]]->GetNominalAmplitude(
-                linesMoreIds[imore]);
         m_ElementsVector->SetElementAmplitude(
-            ilinesMore[imore], ampsMore[imore] / nominal_ampMore,
-            ampErrorsMore[imore] / nominal_ampMore);
+            ilinesMore[imore], ampsMore[imore], ampErrorsMore[imore]);
       }
     }
   }
-- 
2.43.0

