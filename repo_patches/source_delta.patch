From b18cae1f91148034f08fa3d731c032022077d46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 01/26] fix: ResultIndex always reset itself to 1, so every
 result went to MCResult1

---
 src/mcsas3/mc_hdf.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 19db19a..790c0a4 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -24,9 +24,6 @@ class ResultIndex(object):
         ],
     )
 
-    def __attrs_post_init__(self, resultIndex: int = 1):
-        self.resultIndex = resultIndex
-
     @property
     def nxsEntryPoint(self):
         return PurePosixPath(f"/analyses/MCResult{self.resultIndex}")
-- 
2.43.0


From 60103ea23694fa850675b46bb60cc0e74daf7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 02/26] fix: storing over an existing HDF5 entry kept the old
 array, type or value

---
 src/mcsas3/mc_hdf.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 790c0a4..04a7d49 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -123,18 +123,12 @@ def storeKV(filename: Path, path: PurePosixPath, value=None) -> None:
             if str(value.dtype).startswith("<U") or str(value.dtype).startswith("object"):
                 value = value.astype(h5py.special_dtype(vlen=str))
 
-            try:
-                dset = h5g.require_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
-            except TypeError:
-                del h5g[key]
-                dset = h5g.require_dataset(key, data=value, shape=value.shape, dtype=value.dtype)
-
-        elif value is not None:
-            dset = h5g.get(key, None)
-            if dset is None:
-                dset = h5g.create_dataset(key, data=value)
-            else:
-                dset[()] = value
+        # replace any previous entry: require_dataset() keeps the old values of an array of the
+        # same shape, assigning to a scalar casts to the old type, and None means no entry at all
+        if key in h5g:
+            del h5g[key]
+        if value is not None:
+            dset = h5g.create_dataset(key, data=value)
 
         if unit is not None:
             dset.attrs["unit"] = str(unit)
-- 
2.43.0


From d60587a4e854b92e3e474e9f44026994811d8779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 03/26] fix: strings inside a stored dict came back as bytes

---
 src/mcsas3/mc_hdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mcsas3/mc_hdf.py b/src/mcsas3/mc_hdf.py
index 04a7d49..1d1e3ce 100644
--- a/src/mcsas3/mc_hdf.py
+++ b/src/mcsas3/mc_hdf.py
@@ -69,6 +69,8 @@ def loadKV(filename: Path, path: PurePosixPath, datatype=None, default=None, dbg
                     value.update({key: subDict})
                 else:
                     value.update({key: keyValue[()]})
+                    if isinstance(keyValue[()], bytes):
+                        value.update({key: keyValue[()].decode()})
                     if isinstance(keyValue[()], np.ndarray):
                         if isinstance(keyValue[()][0], bytes):
                             value.update({key: np.array([i.decode() for i in keyValue[()]])})
-- 
2.43.0


From ff05a8eb8bc21f5e98cf819736e71a7b961b329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 04/26] fix: acceptedGofs recorded the GOF before each accepted
 move instead of the reached one

---
 src/mcsas3/mc_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index 1907d81..a4f8431 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -204,10 +204,10 @@ class McCore:
         newGof = self.reEvaluate()  # 2 ms
         # if this is an improvement:
         if newGof < self._opt.gof:
-            # accept the move:
-            self.accept()  # 500 µs
-            # and store the new GOF as current:
+            # store the new GOF as current, accept() records it in the history:
             self._opt.gof = newGof
+            # and accept the move:
+            self.accept()  # 500 µs
         # increment step counter in either case:
         self._opt.step += 1
 
-- 
2.43.0


From 550fdb55047a33d3e2a04f005161609dda746146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 05/26] fix: loading a result added the GOF to every value of
 its acceptance history

---
 src/mcsas3/mc_core.py | 5 +++--
 src/mcsas3/mc_opt.py  | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_core.py b/src/mcsas3/mc_core.py
index a4f8431..890820a 100644
--- a/src/mcsas3/mc_core.py
+++ b/src/mcsas3/mc_core.py
@@ -96,8 +96,9 @@ class McCore:
         # store the initial background and scaling optimization as new initial guess:
         self._opt.x0 = self._opt.testX0
 
-        self._opt.acceptedSteps += [0]
-        self._opt.acceptedGofs += [self._opt.gof]
+        if loadFromFile is None:  # a loaded history is complete already
+            self._opt.acceptedSteps += [0]
+            self._opt.acceptedGofs += [self._opt.gof]
         return  # one of the following tests always fails for test data, what's the purpose?
         # the hope was to test that the previously stored optimization result still
         # gives the same answer for GOF and scaling/background
diff --git a/src/mcsas3/mc_opt.py b/src/mcsas3/mc_opt.py
index 31c3cdd..252f535 100644
--- a/src/mcsas3/mc_opt.py
+++ b/src/mcsas3/mc_opt.py
@@ -111,4 +111,6 @@ class McOpt:
         if path is None:
             path = self.resultIndex.nxsEntryPoint / "optimization" / f"repetition{repetition}"
         for key, value in loadKVPairs(filename, path, self.loadKeys):
+            if key in ("acceptedSteps", "acceptedGofs"):
+                value = list(value)  # lists get extended, adding to an array adds to its values
             setattr(self, key, value)
-- 
2.43.0


From fa0c246f6ac3d17df8e1a5a378ccbd7091092343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 06/26] fix: optimizeScalingAndBackground ignored the given
 xBounds

---
 src/mcsas3/osb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mcsas3/osb.py b/src/mcsas3/osb.py
index 84afa8c..ce58690 100644
--- a/src/mcsas3/osb.py
+++ b/src/mcsas3/osb.py
@@ -45,6 +45,7 @@ class optimizeScalingAndBackground(object):
     def __init__(self, measDataI=None, measDataISigma=None, xBounds=None):
         self.measDataI = measDataI
         self.measDataISigma = measDataISigma
+        self.xBounds = xBounds
         self.validate()
         if xBounds is None:
             self.xBounds = [
-- 
2.43.0


From e9710476a75b47e5cfbf8d23b506bb6ba94c68e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 07/26] fix: rebinning could lose the first datapoint to
 rounding of the first bin edge

---
 src/mcsas3/mc_data_1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index b0b32e9..9ba8d8a 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -153,6 +153,8 @@ class McData1D(McData):
             }
         )
 
+        # rounding of the logarithms must not exclude the first datapoint:
+        binEdges[0] = qMin
         # add a little to the end to ensure the last datapoint is captured:
         binEdges[-1] = binEdges[-1] + 1e-3 * (binEdges[-1] - binEdges[-2])
 
-- 
2.43.0


From 633646723e4ea99d7bf1871e51ee6eae5e0b67d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 08/26] fix: omitting a range dropped other datapoints sharing
 an index label

---
 src/mcsas3/mc_data_1d.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index 9ba8d8a..f3094be 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -114,10 +114,9 @@ class McData1D(McData):
                 len(omitQRange) == 2
             ), "each omitQRange must contain two elements: a minimum and maximum value"
             # we drop the matches:
-            self.clippedData.drop(
-                self.clippedData.query(f"{omitQRange[0]} <= Q < {omitQRange[1]}").index,
-                inplace=True,
-            )
+            self.clippedData = self.clippedData.query(
+                f"not ({omitQRange[0]} <= Q < {omitQRange[1]})"
+            ).copy()
 
     def reBin(
         self, nbins: Optional[int] = None, IEmin: Optional[float] = None, QEMin: float = 0.01
-- 
2.43.0


From 89cf5e9b06db566a52bfbb192981ca0ec76b0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 09/26] fix: restored 1D data lost its Q nudge, data range, CSV
 options and HDF5 paths

---
 src/mcsas3/mc_data.py    | 4 +++-
 src/mcsas3/mc_data_1d.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 1be7217..95e5e98 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -81,8 +81,10 @@ class McData:
             "IEmin": float,
             "binning": "str",
             "dataRange": None,  # not sure what this is.. array?
+            "pathDict": "dict",
             "csvargs": "dict",
             "loader": "str",
+            "qNudge": None,
             "omitQRanges": list,  # not sure if this works?
         }
     )
@@ -334,7 +336,7 @@ class McData:
         for key, datatype in self.loadKeys.items():
             value = loadKV(filename, path / key, datatype=datatype, default=None, dbg=True)
             if key == "csvargs":
-                self.csvargs.update(value)
+                self.csvargs.update(value or {})
             else:
                 if value is not None:
                     setattr(self, key, value)
diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index f3094be..5391025 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -24,7 +24,7 @@ class McData1D(McData):
         resultIndex: int = 1,
         **kwargs: dict,
     ) -> None:
-        super().__init__(loadFromFile=loadFromFile, resultIndex=resultIndex, **kwargs)
+        super().__init__(resultIndex=resultIndex, **kwargs)
         self.csvargs = {
             "sep": r"\s+",
             "header": None,
@@ -32,6 +32,8 @@ class McData1D(McData):
         }  # default for 1D, overwritten in subclass
         self.dataRange = [-np.inf, np.inf]  # min-max for data range to fit
         self.qNudge = 0  # nudge in case of misaligned centers. Applied to measData
+        if loadFromFile is not None:  # only now, so that the defaults do not replace the loaded
+            self.load(loadFromFile)
         self.processKwargs(**kwargs)  # redo kwargs in case the reset values have been updated
 
         # load from dataframe if provided
-- 
2.43.0


From c0f5879f1b0b5c0ef3d50c58de60d1796c195d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 10/26] fix: 2D clipping kept the pixels of the crop rectangle
 that are outside the data limits

---
 src/mcsas3/mc_data_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mcsas3/mc_data_2d.py b/src/mcsas3/mc_data_2d.py
index c1f4842..0fcf321 100644
--- a/src/mcsas3/mc_data_2d.py
+++ b/src/mcsas3/mc_data_2d.py
@@ -124,6 +124,8 @@ class McData2D(McData):
         # remove infinite intensities and zero-uncertainty datapoints as well (add to mask):
         bArr = np.invert((np.isinf(self.clippedData["I2D"]) | (self.clippedData["ISigma2D"] == 0)))
         self.clippedData["invMask"] = bArr * np.invert(self.clippedData["mask2D"]).astype(bool)
+        # the crop envelope is a rectangle, the limits may not be:
+        self.clippedData["invMask"] &= withinLimits[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
 
         self.clippedData["I"] = (self.clippedData["I2D"][self.clippedData["invMask"]]).flatten()
         self.clippedData["ISigma"] = (
-- 
2.43.0


From e52eb52e30060567154885aa0cc1685362f6adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 11/26] fix: 2D clipping dropped the last valid row and column

---
 src/mcsas3/mc_data_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data_2d.py b/src/mcsas3/mc_data_2d.py
index 0fcf321..550daca 100644
--- a/src/mcsas3/mc_data_2d.py
+++ b/src/mcsas3/mc_data_2d.py
@@ -103,11 +103,11 @@ class McData2D(McData):
         # find crop envelope:
         Q0Lim = (
             np.argwhere(withinLimits.sum(axis=1) > 0).min(),
-            np.argwhere(withinLimits.sum(axis=1) > 0).max(),
+            np.argwhere(withinLimits.sum(axis=1) > 0).max() + 1,  # exclusive
         )
         Q1Lim = (
             np.argwhere(withinLimits.sum(axis=0) > 0).min(),
-            np.argwhere(withinLimits.sum(axis=0) > 0).max(),
+            np.argwhere(withinLimits.sum(axis=0) > 0).max() + 1,  # exclusive
         )
         assert Q0Lim[0] < Q0Lim[1], "Could not determine valid crop limits for axis 0 (y)"
         assert Q1Lim[0] < Q1Lim[1], "Could not determine valid crop limits for axis 1 (x)"
-- 
2.43.0


From b21bff5f069e7ee3a6d4de61b65f6e16518c4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 12/26] fix: python -m mcsas3 always failed, its arguments were
 wrapped in lists

---
 src/mcsas3/__main__.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/mcsas3/__main__.py b/src/mcsas3/__main__.py
index 3ff3841..cd1a526 100644
--- a/src/mcsas3/__main__.py
+++ b/src/mcsas3/__main__.py
@@ -114,25 +114,23 @@ if __name__ == "__main__":
 
     adict = vars(args)
     # split arguments into two dictionaries, one for the optimizer and one for the histogrammer
-    adict_optimize = [
-        {
-            k: v
-            for k, v in adict.items()
-            if k
-            in [
-                "dataFile",
-                "resultFile",
-                "readConfigFile",
-                "runConfigFile",
-                "resultIndex",
-                "deleteIfExists",
-                "nThreads",
-            ]
-        }
-    ]
-    adict_histogram = [
-        {k: v for k, v in adict.items() if k in ["resultFile", "histConfigFile", "resultIndex"]}
-    ]
+    adict_optimize = {
+        k: v
+        for k, v in adict.items()
+        if k
+        in [
+            "dataFile",
+            "resultFile",
+            "readConfigFile",
+            "runConfigFile",
+            "resultIndex",
+            "deleteIfExists",
+            "nThreads",
+        ]
+    }
+    adict_histogram = {
+        k: v for k, v in adict.items() if k in ["resultFile", "histConfigFile", "resultIndex"]
+    }
     try:
         McSAS3_cli_optimize(**adict_optimize)
         McSAS3_cli_histogram(**adict_histogram)
-- 
2.43.0


From 260ffa98ee737cbdbb7d6d13d9ea30c5708853b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 13/26] fix: --deleteIfExists deleted the input data if the
 result path spelled it differently

---
 src/mcsas3/cli_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcsas3/cli_tools.py b/src/mcsas3/cli_tools.py
index 430e413..6522dae 100644
--- a/src/mcsas3/cli_tools.py
+++ b/src/mcsas3/cli_tools.py
@@ -41,7 +41,7 @@ class McSAS3_cli_optimize(object):
         if self.resultFile.is_file():
             # only remove result file if it is not the main file!
             # This way, you can add McSAS to an existing nexus file
-            if (self.resultFile != self.dataFile) & (self.deleteIfExists):
+            if (not self.resultFile.samefile(self.dataFile)) & (self.deleteIfExists):
                 self.resultFile.unlink()
         # read the configuration file
         with open(self.readConfigFile, "r") as f:
-- 
2.43.0


From 10f0aaabf3f484b7f27a9ce090d59a072069e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 14/26] fix: a serial repetition started from the scaling and
 background of the previous one

---
 src/mcsas3/mc_hat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 864be0b..9a8f9ed 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -142,8 +142,8 @@ class McHat:
         if bufferStdIO:
             # buffer stdout/err in an individual StringIO object for each repetition
             sys.stderr = sys.stdout = StringIO()
-        if self._opt is None:
-            self._opt = McOpt(**self._optArgs)
+        # every repetition starts from scratch, not from the previous x0:
+        self._opt = McOpt(**self._optArgs)
         if self._model is None:
             self._model = McModel(**self._modelArgs)
 
-- 
2.43.0


From 478d3cc6306a4f4cbc1dddff2beb6a6620a813f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 15/26] fix: parallel repetitions with a fixed seed were all
 identical

---
 src/mcsas3/mc_hat.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 9a8f9ed..962f982 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -145,7 +145,11 @@ class McHat:
         # every repetition starts from scratch, not from the previous x0:
         self._opt = McOpt(**self._optArgs)
         if self._model is None:
-            self._model = McModel(**self._modelArgs)
+            modelArgs = self._modelArgs.copy()
+            seed = modelArgs.get("seed", McModel.seed)
+            if seed is not None:  # repetitions in other processes must not repeat this one
+                modelArgs["seed"] = seed + repetition
+            self._model = McModel(**modelArgs)
 
         self._opt.repetition = repetition
         self._model.resetParameterSet()
-- 
2.43.0


From 6f56a4a3f4b79c1400bf810adcda2769b9ebcfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 16/26] fix: McHat.run() stored half of a result under index 1
 unless given the index again

---
 src/mcsas3/mc_hat.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 962f982..59b7d30 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -93,10 +93,13 @@ class McHat:
                     np.pi / np.min(measData["Q"]),
                 ]
 
-    def run(self, measData: dict, filename: Path, resultIndex: int = 1) -> None:
+    def run(self, measData: dict, filename: Path, resultIndex: Optional[int] = None) -> None:
         """runs the full sequence: multiple repetitions of optimizations, to be parallelized.
         This probably needs to be taken out of core, and into a new parent"""
 
+        if resultIndex is None:
+            resultIndex = self.resultIndex.resultIndex
+
         # ensure the fit parameter limits are filled in based on the data limits if auto
         self.fillFitParameterLimits(measData)
 
@@ -135,10 +138,12 @@ class McHat:
         filename: Path,
         repetition: int = 0,
         bufferStdIO: bool = False,
-        resultIndex: int = 1,
+        resultIndex: Optional[int] = None,
     ) -> None:
         """runs the full sequence: multiple repetitions of optimizations, to be parallelized.
         This probably needs to be taken out of core, and into a new parent"""
+        if resultIndex is None:
+            resultIndex = self.resultIndex.resultIndex
         if bufferStdIO:
             # buffer stdout/err in an individual StringIO object for each repetition
             sys.stderr = sys.stdout = StringIO()
-- 
2.43.0


From 4954631bab7d5fd4041a6916e05e493b85cc5311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 17/26] fix: internal models shared one dict of parameter
 defaults, which McCore updates

---
 src/mcsas3/mc_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index db806c2..6d0b760 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -23,7 +23,7 @@ class sphereParameters(object):
     }
 
     def __init__(self) -> None:
-        pass
+        self.defaults = dict(self.defaults)  # gets updated, not to be shared
 
 
 # ibid.
@@ -32,7 +32,7 @@ class sphereInfo(object):
     parameters = sphereParameters()
 
     def __init__(self) -> None:
-        pass
+        self.parameters = sphereParameters()
 
 
 class mcsasSphereModel(object):
@@ -98,7 +98,7 @@ class simParameters(object):
     }
 
     def __init__(self):
-        pass
+        self.defaults = dict(self.defaults)  # gets updated, not to be shared
 
 
 # ibid.
@@ -107,7 +107,7 @@ class simInfo(object):
     parameters = simParameters()
 
     def __init__(self):
-        pass
+        self.parameters = simParameters()
 
 
 # ibid.
-- 
2.43.0


From bf2f60dd295355fd1f7a4ad4d162eb87fa37e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 18/26] fix: automatic limits of the first data were kept for
 any further data

---
 src/mcsas3/mc_hat.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 59b7d30..a13d2eb 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -71,6 +71,7 @@ class McHat:
             [(key, kwargs.pop(key)) for key in McModel.settables if key in kwargs]
         )
         self._modelArgs.update({"resultIndex": resultIndex})
+        self._fitParameterLimits = self._modelArgs.get("fitParameterLimits", {})
 
         for key, value in kwargs.items():
             assert key in self.storeKeys, "Key {} is not a valid option".format(key)
@@ -78,7 +79,9 @@ class McHat:
         assert self.nRep > 0, "Must optimize for at least one repetition"
 
     def fillFitParameterLimits(self, measData: dict) -> None:
-        for key, val in self._modelArgs["fitParameterLimits"].items():
+        # fill a copy, the settings remain "auto" for the next data:
+        self._modelArgs["fitParameterLimits"] = dict(self._fitParameterLimits)
+        for key, val in self._fitParameterLimits.items():
             if isinstance(val, str):
                 assert val == "auto", (
                     "Only fit parameter options are either providing [min, max] limits or setting"
@@ -102,6 +105,7 @@ class McHat:
 
         # ensure the fit parameter limits are filled in based on the data limits if auto
         self.fillFitParameterLimits(measData)
+        self._model = None  # do not reuse a model set up for other data
 
         if (self.nCores == 1) or (self.nRep == 1):
             for rep in range(self.nRep):
-- 
2.43.0


From 8892b2986c4ad1be3176a52ecfc1bace6db9961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 19/26] fix: McHat.run() with a result index stored the model
 under another one

---
 src/mcsas3/mc_hat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index a13d2eb..228dd64 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -102,6 +102,9 @@ class McHat:
 
         if resultIndex is None:
             resultIndex = self.resultIndex.resultIndex
+        self.resultIndex = ResultIndex(resultIndex)
+        self._optArgs.update({"resultIndex": resultIndex})
+        self._modelArgs.update({"resultIndex": resultIndex})
 
         # ensure the fit parameter limits are filled in based on the data limits if auto
         self.fillFitParameterLimits(measData)
-- 
2.43.0


From bf8db4c663453cda054a80c2e980a28cef01bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 20/26] fix: more worker processes were started than cores
 exist

---
 src/mcsas3/mc_hat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_hat.py b/src/mcsas3/mc_hat.py
index 228dd64..0e59cd1 100644
--- a/src/mcsas3/mc_hat.py
+++ b/src/mcsas3/mc_hat.py
@@ -123,14 +123,15 @@ class McHat:
                 self.nCores = np.minimum(multiprocessing.cpu_count(), self.nRep)
             start = time.time()
             lock = multiprocessing.Lock()
-            pool = multiprocessing.Pool(self.nCores, initializer=initStoreLock, initargs=(lock,))
+            nProcs = int(min(self.nCores, multiprocessing.cpu_count(), self.nRep))
+            pool = multiprocessing.Pool(nProcs, initializer=initStoreLock, initargs=(lock,))
             runArgs = [(measData, filename, r, True, resultIndex) for r in range(self.nRep)]
             outputs = pool.starmap(self.runOnce, runArgs)
             pool.close()
             pool.join()
             print(
                 "McSAS analysis with {} repetitions took {:.1f}s with {} threads.".format(
-                    self.nRep, time.time() - start, min(self.nCores, self.nRep)
+                    self.nRep, time.time() - start, nProcs
                 )
             )
             # for args in runArgs:
-- 
2.43.0


From cec109f43969a8bfc8a905d5cb652f3e3c3875cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 21/26] fix: a seed in the run configuration file was refused

---
 src/mcsas3/cli_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/cli_tools.py b/src/mcsas3/cli_tools.py
index 6522dae..73b292a 100644
--- a/src/mcsas3/cli_tools.py
+++ b/src/mcsas3/cli_tools.py
@@ -56,7 +56,8 @@ class McSAS3_cli_optimize(object):
         if self.nThreads > 0:
             optDict["nCores"] = self.nThreads
         # run the Monte Carlo method
-        mh = mc_hat.McHat(seed=None, resultIndex=self.resultIndex, **optDict)
+        optDict.setdefault("seed", None)
+        mh = mc_hat.McHat(resultIndex=self.resultIndex, **optDict)
         md = mds.measData.copy()
         mh.run(md, self.resultFile, resultIndex=self.resultIndex)
 
-- 
2.43.0


From 3f6a52486d409ea96104de387f07f894d470ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 22/26] fix: logarithmic histograms lost contributions at the
 range limits to rounding

---
 src/mcsas3/mc_model_histogrammer.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mcsas3/mc_model_histogrammer.py b/src/mcsas3/mc_model_histogrammer.py
index d2ff95b..b93aa1b 100644
--- a/src/mcsas3/mc_model_histogrammer.py
+++ b/src/mcsas3/mc_model_histogrammer.py
@@ -201,11 +201,8 @@ class McModelHistogrammer:
         if histRange.binScale == "linear":
             binEdges = np.linspace(histRange.rangeMin, histRange.rangeMax, histRange.nBin + 1)
         elif histRange.binScale == "log":
-            binEdges = np.logspace(
-                np.log10(histRange.rangeMin),
-                np.log10(histRange.rangeMax),
-                histRange.nBin + 1,
-            )
+            # unlike logspace, geomspace keeps the limits free of rounding errors
+            binEdges = np.geomspace(histRange.rangeMin, histRange.rangeMax, histRange.nBin + 1)
         elif histRange.binScale == "auto":
             assert isinstance(
                 parameterSet, pandas.DataFrame
-- 
2.43.0


From 8f8ccebc06d3b413c9ca3e74df6adb837cde9293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 23/26] fix: 2D pixels with undefined intensity were fitted

---
 src/mcsas3/mc_data_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data_2d.py b/src/mcsas3/mc_data_2d.py
index 550daca..49059d5 100644
--- a/src/mcsas3/mc_data_2d.py
+++ b/src/mcsas3/mc_data_2d.py
@@ -121,8 +121,8 @@ class McData2D(McData):
         self.clippedData["Q1Crop2D"] = Q1[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
 
         self.clippedData["kansas"] = self.clippedData["I2D"].shape
-        # remove infinite intensities and zero-uncertainty datapoints as well (add to mask):
-        bArr = np.invert((np.isinf(self.clippedData["I2D"]) | (self.clippedData["ISigma2D"] == 0)))
+        # remove non-finite intensities and zero-uncertainty datapoints as well (add to mask):
+        bArr = np.isfinite(self.clippedData["I2D"]) & (self.clippedData["ISigma2D"] != 0)
         self.clippedData["invMask"] = bArr * np.invert(self.clippedData["mask2D"]).astype(bool)
         # the crop envelope is a rectangle, the limits may not be:
         self.clippedData["invMask"] &= withinLimits[Q0Lim[0] : Q0Lim[1], Q1Lim[0] : Q1Lim[1]]
-- 
2.43.0


From b159018af9d82fd2721aa129751a76c1c28ad939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 24/26] fix: 2D data whose zero Q component comes first could
 not be read

---
 src/mcsas3/mc_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mcsas3/mc_data.py b/src/mcsas3/mc_data.py
index 95e5e98..da64773 100644
--- a/src/mcsas3/mc_data.py
+++ b/src/mcsas3/mc_data.py
@@ -282,8 +282,8 @@ class McData:
                 [self.rawData["Q"][i, :, :].any() for i in range(self.rawData["Q"].shape[0])]
             )
             self.rawData["Q"] = self.rawData["Q"][QxyIndices, :, :].squeeze()
-            self.rawData["Qx"] = self.rawData["Q"][QxyIndices[1], :, :].squeeze()
-            self.rawData["Qy"] = self.rawData["Q"][QxyIndices[0], :, :].squeeze()
+            self.rawData["Qx"] = self.rawData["Q"][1]
+            self.rawData["Qy"] = self.rawData["Q"][0]
             self.rawData2D = self.rawData.copy()  # intermediate storage of original data
             # but we also need to prepare a Pandas-compatible list-format data
             del self.rawData["Q"]
-- 
2.43.0


From e115d776af14acda1815c6994ce503e525be6b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 25/26] fix: treat restored data with the settings given along

---
 src/mcsas3/mc_data_1d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_data_1d.py b/src/mcsas3/mc_data_1d.py
index 5391025..8f0b8ed 100644
--- a/src/mcsas3/mc_data_1d.py
+++ b/src/mcsas3/mc_data_1d.py
@@ -41,7 +41,9 @@ class McData1D(McData):
             self.loader = "from_pandas"  # TODO: need to handle this on restore state
             self.from_pandas(df)
         elif loadFromFile is not None:
-            pass  # do not try loading the file, the information is already there.
+            # do not try loading the file, the information is already there.
+            if kwargs:  # but the data has been prepared without these settings
+                self.prepare()
         elif self.filename is not None:  # filename has been set
             self.from_file(self.filename)
         # link measData to the requested value
-- 
2.43.0


From 5e6067ca81f5b545db607e200acd2047b82a5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 26/26] fix: leave the static parameters given by the caller
 unchanged

---
 src/mcsas3/mc_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcsas3/mc_model.py b/src/mcsas3/mc_model.py
index 6d0b760..d3b5f67 100644
--- a/src/mcsas3/mc_model.py
+++ b/src/mcsas3/mc_model.py
@@ -536,7 +536,7 @@ class McModel:
     def loadSimModel(self) -> None:
         if "simDataQ1" not in self.staticParameters.keys():
             # if it was None when written, it might not exist when loading
-            self.staticParameters.update({"simDataQ1": None})
+            self.staticParameters = dict(self.staticParameters, simDataQ1=None)
 
         self.func = McSimPseudoModel(
             extrapY0=self.staticParameters["extrapY0"],
-- 
2.43.0

