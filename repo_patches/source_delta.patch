From 84fecaedb2e8d475db0c55a97227e8a76aae3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 01/59] fix: delta was shifted by twice the lower bound of the
 delta range

---
 src/elli/result.py | 22 ++++------------------
 src/elli/utils.py  | 11 +++++++++--
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 51eb512..31ec65d 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -112,10 +112,7 @@ class Result:
         .. math::
             \rho = \tan \psi \exp(-i \Delta)
         """
-        return (
-            np.mod(-np.angle(self.rho, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._delta_range.wrap(-np.angle(self.rho, deg=True))
 
     @property
     def delta_t(self) -> npt.NDArray:
@@ -126,10 +123,7 @@ class Result:
         .. math::
             \rho_\text{t} = \tan \psi_\text{t} \exp(-i \Delta_\text{t})
         """
-        return (
-            np.mod(-np.angle(self.rho_t, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._delta_range.wrap(-np.angle(self.rho_t, deg=True))
 
     @property
     def rho_matrix(self) -> npt.NDArray:
@@ -197,10 +191,7 @@ class Result:
             \Delta_\text{pp} & \Delta_\text{ps} \\ \Delta_\text{sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(-np.angle(self.rho_matrix, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._delta_range.wrap(-np.angle(self.rho_matrix, deg=True))
 
     @property
     def delta_matrix_t(self) -> npt.NDArray:
@@ -212,12 +203,7 @@ class Result:
             \Delta_\text{t,pp} & \Delta_\text{t,ps} \\ \Delta_\text{t,sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(
-                -np.angle(self.rho_matrix_t, deg=True) + self._delta_range.lower, 360
-            )
-            + self._delta_range.lower
-        )
+        return self._delta_range.wrap(-np.angle(self.rho_matrix_t, deg=True))
 
     @property
     def mueller_matrix(self) -> npt.NDArray:
diff --git a/src/elli/utils.py b/src/elli/utils.py
index 85f4cd2..7102304 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -35,6 +35,14 @@ class DeltaRange:
         ):
             raise ValueError(f"Invalid delta range ({self.lower}, {self.upper})")
 
+    def wrap(self, delta: npt.ArrayLike) -> npt.ArrayLike:
+        """Maps delta values (in degrees) into this range.
+        For the range (0, 180) only the magnitude of delta is kept."""
+        delta = np.mod(delta - self.lower, 360) + self.lower
+        if (self.lower, self.upper) == (0, 180):
+            return 180 - np.abs(180 - delta)
+        return delta
+
 
 def convert_delta_range(
     delta_values: npt.ArrayLike, lower: int, upper: int
@@ -49,8 +57,7 @@ def convert_delta_range(
     Returns:
         npt.ArrayLike: Delta values with shifted range.
     """
-    delta_range = DeltaRange(lower, upper)
-    return np.mod((delta_values + delta_range.lower), 360) + delta_range.lower
+    return DeltaRange(lower, upper).wrap(delta_values)
 
 
 def calc_pseudo_diel(rho, angle: float, output: str = "eps") -> pd.DataFrame:
-- 
2.43.0


From daade2cb656c3ea1fbf31989237edf1056f8dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 02/59] fix: Result.get raised a TypeError for every name

---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 31ec65d..d728770 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -370,7 +370,7 @@ class Result:
         Returns:
             npt.NDArray: Array of data.
         """
-        return self[name]
+        return getattr(self, name)
 
     def __getattr__(self, name: str) -> npt.NDArray:
         """Return the data for the requested variable 'name'.
-- 
2.43.0


From 9bbba3109e80112b82db4acce7fe2fea32521fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 03/59] fix: isotropic Mueller matrix conversion used degrees
 as radians and wrong N, C, S

---
 src/elli/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 7102304..0780418 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -155,12 +155,12 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
     # fill in the Mueller matrix coefficients for an isotropic material based equation in https://www.jawoollam.com/resources/ellipsometry-faq#toggle-id-15
     for aoi in aois:
         for λ in wavelengths:
-            Δ = psi_delta_df.loc[aoi, λ]["Δ"]
-            Ψ = psi_delta_df.loc[aoi, λ]["Ψ"]
+            Δ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Δ"])
+            Ψ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Ψ"])
 
             N = np.cos(2 * Ψ)
-            C = np.sin(2 * Ψ) * np.cos(2 * Δ)
-            S = np.sin(2 * Ψ) * np.cos(2 * Δ)
+            C = np.sin(2 * Ψ) * np.cos(Δ)
+            S = np.sin(2 * Ψ) * np.sin(Δ)
 
             MM.loc[(aoi, λ), "M11"] = 1
             MM.loc[(aoi, λ), "M12"] = -N
-- 
2.43.0


From 254eff3aa34b389073c4fe824193de694ea4a79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 04/59] fix: adding a number to a refractive index table raised
 InvalidParameters

---
 src/elli/dispersions/table_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index 038be6e..037c0ff 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -57,7 +57,7 @@ class Table(IndexDispersion):
         self, other: Union[int, float, "IndexDispersion"]
     ) -> "IndexDispersionSum":
         if isinstance(other, (int, float)):
-            return IndexDispersionSum(self, ConstantRefractiveIndex(eps=other))
+            return IndexDispersionSum(self, ConstantRefractiveIndex(n=other))
 
         if isinstance(other, Table):
             raise NotImplementedError(
-- 
2.43.0


From 3749ae228b5392755873052d2a53c7c2a924ffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 05/59] fix: reading of spectraray tables with a wavelength
 axis failed

---
 src/elli/dispersions/table_spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_spectraray.py b/src/elli/dispersions/table_spectraray.py
index 87fc9b8..9312ea6 100644
--- a/src/elli/dispersions/table_spectraray.py
+++ b/src/elli/dispersions/table_spectraray.py
@@ -58,7 +58,7 @@ class TableSpectraRay:
 
         if x_unit == "Wavelength":
             return TableEpsilon(
-                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.iloc[:, "ϵ2"]
+                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.loc[:, "ϵ2"]
             )
         return TableEpsilon(
             lbda=conversion_wavelength_energy(df.index),
-- 
2.43.0


From 9ddcfc6ed44af8a0c3ff0133fdf18b615df0f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 06/59] fix: adding dispersions modified the operands that are
 sums themselves

---
 src/elli/dispersions/base_dispersion.py | 40 +++++++++++--------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 04a021b..4d71852 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -223,8 +223,7 @@ class Dispersion(BaseDispersion):
             return other.__add__(self)
 
         if isinstance(other, DispersionSum):
-            other.dispersions.append(self)
-            return other
+            return DispersionSum(self, *other.dispersions)
 
         if isinstance(other, (int, float)):
             return DispersionSum(self, dispersions.EpsilonInf(other))
@@ -299,8 +298,7 @@ class IndexDispersion(BaseDispersion):
             return other.__add__(self)
 
         if isinstance(other, IndexDispersionSum):
-            other.index_dispersions.append(self)
-            return other
+            return IndexDispersionSum(self, *other.index_dispersions)
 
         if isinstance(other, (int, float)):
             return IndexDispersionSum(self, dispersions.ConstantRefractiveIndex(other))
@@ -345,21 +343,20 @@ class DispersionSum(Dispersion):
 
         self.dispersions = []
         for disp in disps:
-            self += disp
+            self._append(disp)
 
-    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+    def _append(self, other: Union[int, float, "Dispersion"]) -> None:
         self._check_valid_operand(other)
 
         if isinstance(other, DispersionSum):
             self.dispersions += other.dispersions
-            return self
-
-        if isinstance(other, (int, float)):
+        elif isinstance(other, (int, float)):
             self.dispersions.append(dispersions.EpsilonInf(eps=other))
-            return self
+        else:
+            self.dispersions.append(other)
 
-        self.dispersions.append(other)
-        return self
+    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+        return DispersionSum(self, other)
 
     def dielectric_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
         dielectric_function = sum(
@@ -388,23 +385,22 @@ class IndexDispersionSum(IndexDispersion):
 
         self.index_dispersions = []
         for disp in disps:
-            self += disp
+            self._append(disp)
 
-    def __add__(
-        self, other: Union[int, float, "IndexDispersion"]
-    ) -> "IndexDispersionSum":
+    def _append(self, other: Union[int, float, "IndexDispersion"]) -> None:
         self._check_valid_operand(other)
 
         if isinstance(other, IndexDispersionSum):
             self.index_dispersions += other.index_dispersions
-            return self
-
-        if isinstance(other, (int, float)):
+        elif isinstance(other, (int, float)):
             self.index_dispersions.append(dispersions.ConstantRefractiveIndex(n=other))
-            return self
+        else:
+            self.index_dispersions.append(other)
 
-        self.index_dispersions.append(other)
-        return self
+    def __add__(
+        self, other: Union[int, float, "IndexDispersion"]
+    ) -> "IndexDispersionSum":
+        return IndexDispersionSum(self, other)
 
     def refractive_index(self, lbda: npt.ArrayLike) -> npt.NDArray:
         refractive_index = sum(
-- 
2.43.0


From 7a7d938fb23bb72a09d31dfbc30a45f7aa97c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 07/59] fix: averaging a list of one result averaged over the
 wavelengths

---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index d728770..f799ddd 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -527,4 +527,4 @@ class AveragedResultList(ResultList):
                 "The ResultList is already averaged and can't be averaged again."
             )
 
-        return np.mean(super().__getattr__(name), axis=0)
+        return np.mean([getattr(result, name) for result in self.results], axis=0)
-- 
2.43.0


From f33480ecc082990f8112d9314173c2176861d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 08/59] fix: element access to psi_t, delta_t and rho_t raised
 an IndexError

---
 src/elli/result.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elli/result.py b/src/elli/result.py
index f799ddd..298e668 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -412,6 +412,9 @@ class Result:
                 return self.__getattribute__(names[0])
             return self.__getattribute__(names[0] + "_matrix")[:, i, j]
 
+        if names[0] in ["psi_t", "delta_t", "rho_t"]:
+            return self.__getattribute__(names[0][:-2] + "_matrix_t")[:, i, j]
+
         if names[0] in ["r", "rc", "t", "tc"]:
             if len(names) == 1:
                 return self.__getattribute__("jones_matrix_" + names[0])
-- 
2.43.0


From 1792edfe0318fda61de2c8e55a653871da708c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 09/59] fix: Kramers-Kronig transform used a wrong interval at
 the first point

---
 src/elli/kkr/kkr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 05bdab1..85f9ba6 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -126,7 +126,7 @@ def _calc_kkr(
         )
 
     integral = np.empty(len(t))
-    interval = np.diff(x, prepend=x[1] - x[0])
+    interval = np.diff(x, prepend=2 * x[0] - x[1])
     odd_slice = slice(1, None, 2)
     even_slice = slice(0, None, 2)
 
-- 
2.43.0


From 1d930335307fea81b3cfc01302fe15439a91de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 10/59] fix: NeXus table dispersions kept unread h5py datasets
 as their axis

---
 src/elli/importer/nexus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 47b9981..717de05 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -205,10 +205,10 @@ def read_nexus_materials(filename: str):
     def get_dispersion_table(dataset: h5py.Dataset):
         wavelength = None
         if "wavelength" in dataset:
-            wavelength = dataset["wavelength"]
+            wavelength = dataset["wavelength"][()]
 
         if "energy" in dataset:
-            wavelength = conversion_wavelength_energy(dataset["energy"])
+            wavelength = conversion_wavelength_energy(dataset["energy"][()])
 
         if wavelength is None:
             raise ValueError("No wavelength array found in dataset.")
-- 
2.43.0


From 32531b75f20d68309e4214174319f1ce5aa9f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 11/59] fix: ParamsHist.revert failed on missing positions,
 failed updates grew the history

---
 src/elli/fitting/params_hist.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index 9e5098d..d7890d3 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -81,7 +81,7 @@ class ParamsHist(Parameters):
         Args:
             hist_pos (int): The history position to revert to.
         """
-        if len(self._history) > (hist_pos % len(self._history)):
+        if -len(self._history) <= hist_pos < len(self._history):
             self.update(self._history[hist_pos])
 
     def pop(self):
@@ -101,8 +101,9 @@ class ParamsHist(Parameters):
             key (str): The key to be updated
             value (float): The value the key should be updated to
         """
+        param = super().__getitem__(key)
         self.commit()
-        super().__getitem__(key).value = value
+        param.value = value
 
     def update_params(self, parameters) -> None:
         """Updates the current parameters from a lmfit parameters object.
-- 
2.43.0


From 045268280236ab3e6e1ac47146e5d07cd66a8c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 12/59] fix: FitMuellerMatrix required its optional display
 arguments

---
 src/elli/fitting/decorator_mmatrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elli/fitting/decorator_mmatrix.py b/src/elli/fitting/decorator_mmatrix.py
index 25999d7..027f026 100644
--- a/src/elli/fitting/decorator_mmatrix.py
+++ b/src/elli/fitting/decorator_mmatrix.py
@@ -61,6 +61,10 @@ def mmatrix_to_dataframe(
 class FitMuellerMatrix(FitDecorator):
     """A class to fit mueller matrices to experimental data"""
 
+    display_single = True
+    sharex = False
+    full_scale = False
+
     def update_selection(self, _: dict = None) -> None:
         """Update plot after selection of displayed data
 
-- 
2.43.0


From 5fe1ec1f0170aba9ab95ccf792ac55ef65e9e17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 13/59] fix: fit widgets of unbounded parameters rejected
 negative values

---
 src/elli/fitting/decorator_psi_delta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator_psi_delta.py b/src/elli/fitting/decorator_psi_delta.py
index 6ce2f57..a4f8b41 100644
--- a/src/elli/fitting/decorator_psi_delta.py
+++ b/src/elli/fitting/decorator_psi_delta.py
@@ -176,7 +176,7 @@ class FitRho(FitDecorator):
             curr_widget = widgets.BoundedFloatText(
                 self.params[param],
                 min=(
-                    float_info.min
+                    -float_info.max
                     if self.params[param].min == -float("inf")
                     else self.params[param].min
                 ),
-- 
2.43.0


From 9698006d3de5ffc0425eb8f2ab6b2d6c30d0304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 14/59] fix: heaviside could not be used in formulas

---
 src/elli/formula_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index e2de3d4..be7e8fe 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -103,7 +103,7 @@ class FormulaTransformer(Transformer):
             "dawsn": dawsn,
             "ln": np.log,
             "log": np.log10,
-            "heaviside": np.heaviside,
+            "heaviside": lambda x: np.heaviside(x, 0.5),
         }
 
         if name in names:
-- 
2.43.0


From 239e02c9de95c7dab05e6b8e15bb1d649a0d1892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 15/59] fix: delta ranges accepted one non-integer bound

---
 src/elli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 0780418..1d7d8d6 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -16,7 +16,7 @@ class DeltaRange:
     upper: int
 
     def __post_init__(self):
-        if not (isinstance(self.lower, int) or isinstance(self.upper, int)):
+        if not (isinstance(self.lower, int) and isinstance(self.upper, int)):
             raise TypeError("delta range values must be an integer")
 
         if not -360 <= self.lower <= 0:
-- 
2.43.0


From a68699833e5eb652288437fbfc281742805a0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 16/59] fix: as_index failed for dispersions with required
 parameters

---
 src/elli/dispersions/base_dispersion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 4d71852..3655e36 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -251,9 +251,10 @@ class Dispersion(BaseDispersion):
             },
         )
 
-        idx_dispersion = AnonymousIndexDispersion()
+        idx_dispersion = AnonymousIndexDispersion(**self.single_params)
         idx_dispersion.rep_params = self.rep_params
         idx_dispersion.single_params = self.single_params
+        idx_dispersion.default_lbda_range = self.default_lbda_range
 
         return idx_dispersion
 
-- 
2.43.0


From 554a4c59728f29261e3bfbb4763fa1db5c86c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 17/59] fix: DispersionFactory tried to call submodules instead
 of raising a ValueError

---
 src/elli/dispersions/base_dispersion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 3655e36..740e484 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -326,7 +326,10 @@ class DispersionFactory:
         """
         bad_identifier = ["Dispersion"]
 
-        if hasattr(dispersions, identifier) and identifier not in bad_identifier:
+        if (
+            isinstance(getattr(dispersions, identifier, None), type)
+            and identifier not in bad_identifier
+        ):
             return getattr(dispersions, identifier)(*args, **kwargs)
 
         raise ValueError(f"No such dispersion: {identifier}")
-- 
2.43.0


From dd1c93ffdcc5a3da2e39a7921489d2f953b3ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 18/59] fix: wrong modes were selected in anisotropic exit
 media due to rounding errors

---
 src/elli/solver4x4.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 4f2610d..5eb7337 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -218,8 +218,10 @@ class Solver4x4(Solver):
         """
         q, p = np.linalg.eig(delta)
 
-        # Sort according to z propagation direction, by Re(q) first, then Im(q)
-        idx = np.lexsort((-np.real(q), -np.imag(q)))
+        # Sort according to z propagation direction, by Im(q) first, then Re(q).
+        # Rounding errors in Im(q) of undamped modes must not decide the direction.
+        q_im = np.where(np.abs(q.imag) < 1e-9 * np.abs(q).max(), 0, q.imag)
+        idx = np.lexsort((-np.real(q), -q_im))
 
         q = np.take_along_axis(q, idx, axis=-1)
         p = np.take_along_axis(p, idx[:, np.newaxis, :], axis=-1)
-- 
2.43.0


From e9ae9f05b4c1e5eb3dfe9cca2592c4a906a1149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 19/59] fix: index profiles were zero in every direction but x

---
 src/elli/plot/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/plot/structure.py b/src/elli/plot/structure.py
index 110cf6c..4fd8caf 100644
--- a/src/elli/plot/structure.py
+++ b/src/elli/plot/structure.py
@@ -32,7 +32,7 @@ def get_index_profile(structure, lbda, v=E_X):
     """
     profile = get_permittivity_profile(structure, lbda)
     (h, epsilon) = list(zip(*profile))  # unzip
-    n = [sqrt((v.T * eps * v)[0, 0, 0]) for eps in epsilon]
+    n = [sqrt(v @ eps[0] @ v) for eps in epsilon]
     return list(zip(h, n))
 
 
-- 
2.43.0


From 1eb5828e69e053c7d581c28ff6338ed291f4a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 20/59] fix: transmittance of p-polarized light into absorbing
 media was wrong

---
 src/elli/result.py    | 24 ++++++++++++++++++------
 src/elli/solver2x2.py | 15 +++++++++++----
 src/elli/solver4x4.py | 16 +++++++++++++---
 3 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 298e668..aa9e952 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -307,7 +307,7 @@ class Result:
         .. math::
             M_T = \begin{bmatrix} T_{pp} & T_{ps} \\ T_{sp} & T_{ss} \end{bmatrix}
         """
-        return np.abs(self._jones_matrix_t) ** 2 * self._power_correction[:, None, None]
+        return np.abs(self._jones_matrix_t) ** 2 * self._power_correction[:, :, None]
 
     @property
     def Rc_matrix(self) -> npt.NDArray:
@@ -325,7 +325,16 @@ class Result:
         .. math::
             M_{Tc} = \begin{bmatrix} T_{LL} & T_{LR} \\ T_{RL} & T_{RR} \end{bmatrix}
         """
-        return np.abs(self.jones_matrix_tc) ** 2 * self._power_correction[:, None, None]
+        c = 1 / sqrt(2) * np.array([[1, 1], [1j, -1j]])
+        power_amplitudes = (
+            sqrt(self._power_correction)[:, :, None] * self._jones_matrix_t
+        )
+        return (
+            np.abs(
+                np.einsum("ij,...jk,kl->...il", np.linalg.inv(c), power_amplitudes, c)
+            )
+            ** 2
+        )
 
     def __init__(
         self,
@@ -342,16 +351,19 @@ class Result:
             jones_matrix_r (npt.NDArray): Jones matrix for the reflection direction.
             jones_matrix_t (npt.NDArray): Jones matrix for the transmission direction.
             power_correction (npt.NDArray):
-                Correction factors, to get the power transmission values.
+                Correction factors, to get the power transmission values. Either one value
+                per wavelength or separate values for (p, s) polarized transmitted light.
         """
         self.experiment = experiment
         self._jones_matrix_r = jones_matrix_r
         self._jones_matrix_t = jones_matrix_t
         self._delta_range = DeltaRange(-180, 180)
         if power_correction is None:
-            self._power_correction = np.ones_like(self.experiment.lbda)
-        else:
-            self._power_correction = power_correction
+            power_correction = np.ones(np.shape(self.experiment.lbda))
+        power_correction = np.asarray(power_correction)
+        if power_correction.ndim == 1:
+            power_correction = np.stack([power_correction, power_correction], axis=-1)
+        self._power_correction = power_correction
 
     def get(self, name: str) -> npt.NDArray:
         """Return the data for the requested variable 'name'.
diff --git a/src/elli/solver2x2.py b/src/elli/solver2x2.py
index b7ed856..a0ba191 100644
--- a/src/elli/solver2x2.py
+++ b/src/elli/solver2x2.py
@@ -106,10 +106,17 @@ class Solver2x2(Solver):
         jones_matrix_r = np.moveaxis(np.array([[rtotp, zeros], [zeros, rtots]]), 2, 0)
         jones_matrix_t = np.moveaxis(np.array([[ttotp, zeros], [zeros, ttots]]), 2, 0)
 
-        # TODO: Test if p and s correction formulas are needed.
-        power_correction = ((n_list[-1] * np.cos(th_list[-1])).real) / (
-            n_list[0] * np.cos(th_list[0])
-        ).real
+        # Ratio of the z components of the Poynting vectors.
+        # It differs for p and s polarization if the exit medium is absorbing.
+        cos_i = np.cos(th_list[0])
+        cos_t = np.cos(th_list[-1])
+        power_correction = np.stack(
+            [
+                (n_list[-1] * np.conj(cos_t)).real / (n_list[0] * np.conj(cos_i)).real,
+                (n_list[-1] * cos_t).real / (n_list[0] * cos_i).real,
+            ],
+            axis=-1,
+        )
 
         return Result(self.experiment, jones_matrix_r, jones_matrix_t, power_correction)
 
diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 5eb7337..10ac70c 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -377,13 +377,23 @@ class Solver4x4(Solver):
 
         # The power transmission coefficient is the ratio of the 'z' components
         # of the Poynting vector:       t = P_t_z / P_i_z
-        # For isotropic media, we have: t = kb'/kf' |t_bf|^2
-        # The correction coefficient is kb'/kf'
+        # For isotropic media, we have for s-polarization: t = kb'/kf' |t_bf|^2
+        # The correction coefficient is kb'/kf', for p-polarization it is
+        # (nb (kb/nb)*)' / (nf (kf/nf)*)', which differs in absorbing media.
         # Note : For the moment it is only meaningful for isotropic half spaces.
         if isinstance(self.structure.back_material, IsotropicMaterial):
             k_z_f = self.get_k_z(self.structure.front_material, self.lbda, k_x)
             k_z_b = self.get_k_z(self.structure.back_material, self.lbda, k_x)
-            power_correction = k_z_b.real / k_z_f.real
+            n_f = self.structure.front_material.get_refractive_index(self.lbda)[:, 0, 0]
+            n_b = self.structure.back_material.get_refractive_index(self.lbda)[:, 0, 0]
+            power_correction = np.stack(
+                [
+                    (n_b * np.conj(k_z_b / n_b)).real
+                    / (n_f * np.conj(k_z_f / n_f)).real,
+                    k_z_b.real / k_z_f.real,
+                ],
+                axis=-1,
+            )
             return Result(
                 self.experiment, jones_matrix_r, jones_matrix_t, power_correction
             )
-- 
2.43.0


From 2230505074b92445ef2644912687a6157e9b65fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 21/59] fix: Jones vectors of nearly vertical Stokes vectors
 were not normalised

---
 src/elli/experiment.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index e7f5fd6..b5994d1 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -121,12 +121,9 @@ class Experiment:
             U = self.stokes_vector[2] / (self.stokes_vector[0] * p)
             V = self.stokes_vector[3] / (self.stokes_vector[0] * p)
 
-            if Q == -1:
-                a = 0
-                b = 1
-            else:
-                a = np.sqrt((1 + Q) / 2)
-                b = U / (2 * a) + 1j * V / (2 * a)
+            # Avoid the division by a, which is inaccurate for nearly vertical polarization.
+            a = np.sqrt(max(1 + Q, 0) / 2)
+            b = np.sqrt(max(1 - Q, 0) / 2) * np.exp(1j * np.arctan2(V, U))
 
             self.jones_vector = np.array([a, b])
 
-- 
2.43.0


From b54d53fa2820d59ce6147dd82d7554e22eef33e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 22/59] fix: PropagatorExpm with SciPy returned wrong results
 for multiple wavelengths

---
 src/elli/solver4x4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 10ac70c..ac70374 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -78,7 +78,8 @@ class PropagatorExpm(Propagator):
             "torch": lambda mats: torch.linalg.matrix_exp(
                 torch.from_numpy(mats)
             ).numpy(),
-            "scipy": lambda mats: scipy_expm(mats),
+            # Evaluated one by one: stacks of matrices give wrong results in SciPy 1.18.0.
+            "scipy": lambda mats: np.array([scipy_expm(mat) for mat in mats]),
         }
 
         if backend == "automatic" and TORCH_AVAILABLE:
-- 
2.43.0


From b54cd037dc01076b8baf0c74c52de4f2c138155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 23/59] fix: twisted and graded layers without thickness gave
 NaN

---
 src/elli/structure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index eb25a53..99cdd99 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -313,7 +313,8 @@ class TwistedLayer(InhomogeneousLayer):
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
         epsilon = self.material.get_tensor(lbda)
-        m_r = rotation_v_theta(E_Z, self.angle * z / self.thickness)
+        depth = z / self.thickness if self.thickness > 0 else 0
+        m_r = rotation_v_theta(E_Z, self.angle * depth)
         return m_r @ epsilon @ m_r.T
 
 
@@ -386,8 +387,9 @@ class VaryingMixtureLayer(InhomogeneousLayer):
         Returns:
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
+        depth = z / self.thickness if self.thickness > 0 else 0
         epsilon = self.material.get_tensor_fraction(
-            lbda, self.fraction_modulation(z / self.thickness)
+            lbda, self.fraction_modulation(depth)
         )
         return epsilon
 
-- 
2.43.0


From 7eed918bf3b0157ffd9747d233ef72a7db5e3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 24/59] fix: dispersions failed for lists of wavelengths or
 negative exponents of integer wavelengths

---
 src/elli/dispersions/base_dispersion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 740e484..42feb65 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -113,12 +113,14 @@ class BaseDispersion(ABC):
         """Returns the dielectric constant for wavelength 'lbda' default unit (nm)
         in the convention ε1 + iε2."""
         lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = np.asarray(lbda, dtype=float)
         return np.asarray(self.dielectric_function(lbda), dtype=np.complex128)
 
     def get_refractive_index(self, lbda: Optional[npt.ArrayLike] = None) -> npt.NDArray:
         """Returns the refractive index for wavelength 'lbda' default unit (nm)
         in the convention n + ik."""
         lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = np.asarray(lbda, dtype=float)
 
         if isinstance(self, IndexDispersion):
             return self.refractive_index(lbda)
-- 
2.43.0


From 11e0ac5d17e4e9b07dfb54978723e15d9a893a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 25/59] fix: CodyLorentz with a small Urbach energy gave NaN

---
 src/elli/dispersions/cody_lorentz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/cody_lorentz.py b/src/elli/dispersions/cody_lorentz.py
index 20302ba..ac3f24d 100644
--- a/src/elli/dispersions/cody_lorentz.py
+++ b/src/elli/dispersions/cody_lorentz.py
@@ -61,7 +61,7 @@ class CodyLorentz(Dispersion):
 
         # fmt: off
         return (
-            E1 / E * np.exp((E - Et) / Eu) * np.heaviside(Et - E, 1)
+            E1 / E * np.exp(np.minimum(E - Et, 0) / Eu) * np.heaviside(Et - E, 1)
             + G(E) * L(E) * np.heaviside(E - Et, 0)
         )
         # fmt: on
-- 
2.43.0


From 5f5bcd44df024ce32608f0a196b174d29730a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 26/59] fix: isotropic Mueller matrix conversion used another
 sign of S than the results

---
 src/elli/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 1d7d8d6..10ddcef 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -153,6 +153,7 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
     )
 
     # fill in the Mueller matrix coefficients for an isotropic material based equation in https://www.jawoollam.com/resources/ellipsometry-faq#toggle-id-15
+    # The fourth Stokes component has the opposite sign there, use the one of Result.mueller_matrix.
     for aoi in aois:
         for λ in wavelengths:
             Δ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Δ"])
@@ -175,11 +176,11 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
             MM.loc[(aoi, λ), "M31"] = 0
             MM.loc[(aoi, λ), "M32"] = 0
             MM.loc[(aoi, λ), "M33"] = C
-            MM.loc[(aoi, λ), "M34"] = S
+            MM.loc[(aoi, λ), "M34"] = -S
 
             MM.loc[(aoi, λ), "M41"] = 0
             MM.loc[(aoi, λ), "M42"] = 0
-            MM.loc[(aoi, λ), "M43"] = -S
+            MM.loc[(aoi, λ), "M43"] = S
             MM.loc[(aoi, λ), "M44"] = C
 
     return MM
-- 
2.43.0


From e1593721e02b5eefc2184eda48c9e58bfc457fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 27/59] fix: result lists had no get method

---
 src/elli/result.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/elli/result.py b/src/elli/result.py
index aa9e952..8565955 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -479,6 +479,17 @@ class ResultList:
         """
         self.results.append(result)
 
+    def get(self, name: str) -> npt.NDArray:
+        """Returns the data for the requested variable 'name' of all results.
+
+        Args:
+            name (str): Variable name to return, see Result.get.
+
+        Returns:
+            npt.NDArray: Array of data.
+        """
+        return getattr(self, name)
+
     def __len__(self) -> int:
         """Returns length of ResultList.
 
-- 
2.43.0


From 7e306c41e6f54743ef157bcab493beb8e796d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 28/59] fix: r_LR and similar names returned coefficients of
 linear polarization

---
 src/elli/result.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elli/result.py b/src/elli/result.py
index 8565955..afba717 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -419,6 +419,9 @@ class Result:
         if len(names) > 1:
             (i, j) = map(_convert_index, names[1])
 
+            if names[0] in ["r", "t", "R", "T"] and set(names[1]) <= {"L", "R"}:
+                names[0] += "c"
+
         if names[0] in ["psi", "delta", "rho", "R", "T"]:
             if len(names) == 1:
                 return self.__getattribute__(names[0])
-- 
2.43.0


From 1bbe638d851ca8bf348df53025f1170583a75b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 29/59] fix: pseudo-dielectric function uses the range of its
 data as default wavelengths

---
 src/elli/dispersions/pseudo_dielectric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elli/dispersions/pseudo_dielectric.py b/src/elli/dispersions/pseudo_dielectric.py
index 1fcb393..e1130a7 100644
--- a/src/elli/dispersions/pseudo_dielectric.py
+++ b/src/elli/dispersions/pseudo_dielectric.py
@@ -60,6 +60,8 @@ class PseudoDielectricFunction(Dispersion):
             kind="cubic",
         )
 
+        self.default_lbda_range = self.single_params.get("lbda")
+
     def __add__(self, _: Union[int, float, "Dispersion"]) -> "DispersionSum":
         raise NotImplementedError("Adding of tabular dispersions is not yet supported")
 
-- 
2.43.0


From eaee9af4e54128c97ac6f7366e5236bcd755ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 30/59] fix: dispersion tables with a single entry return its
 value instead of NaN

---
 src/elli/dispersions/table_epsilon.py | 3 ++-
 src/elli/dispersions/table_index.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/table_epsilon.py b/src/elli/dispersions/table_epsilon.py
index 1124756..c2fff9d 100644
--- a/src/elli/dispersions/table_epsilon.py
+++ b/src/elli/dispersions/table_epsilon.py
@@ -49,7 +49,8 @@ class TableEpsilon(Dispersion):
         self.interpolation = scipy.interpolate.interp1d(
             self.single_params.get("lbda"),
             self.single_params.get("epsilon"),
-            kind=self.kind,
+            # There is nothing to interpolate for a single table entry.
+            kind=self.kind if len(self.single_params.get("lbda")) > 1 else "nearest",
         )
 
         self.default_lbda_range = self.single_params.get("lbda")
diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index 037c0ff..3894a79 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -48,7 +48,8 @@ class Table(IndexDispersion):
         self.interpolation = scipy.interpolate.interp1d(
             self.single_params.get("lbda"),
             self.single_params.get("n"),
-            kind=self.kind,
+            # There is nothing to interpolate for a single table entry.
+            kind=self.kind if len(self.single_params.get("lbda")) > 1 else "nearest",
         )
 
         self.default_lbda_range = self.single_params.get("lbda")
-- 
2.43.0


From 82c53e945744d36cd24a531d1f0fb5d16a71e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 31/59] fix: Kramers-Kronig transform from real to imaginary
 part has the sign of a causal response

---
 src/elli/kkr/kkr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 85f9ba6..9ebc7f1 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -77,7 +77,7 @@ def _integrate_re(re: np.ndarray, x: np.ndarray, x_i: np.ndarray) -> np.ndarray:
     Returns:
         numpy.ndarray: The real sum. (shape (m,))
     """
-    return np.sum(x_i * re / (x * x - x_i * x_i), axis=1)
+    return -np.sum(x_i * re / (x * x - x_i * x_i), axis=1)
 
 
 def _integrate_re_reciprocal(
@@ -95,7 +95,7 @@ def _integrate_re_reciprocal(
         numpy.ndarray: The real sum. (shape (m,))
     """
 
-    return np.sum(re / (x_i - x * x / x_i), axis=1)
+    return -np.sum(re / (x_i - x * x / x_i), axis=1)
 
 
 def _calc_kkr(
@@ -153,7 +153,7 @@ def re2im(re: np.ndarray, x: np.ndarray) -> np.ndarray:
 
     .. math::
         \Delta \Im(x_i) = \Im(x_i) - \Im(\infty) =
-        \frac{2}{\pi} \int_0^\infty \frac{x_i \Re(x)}{x^2 - x_i^2} dx
+        -\frac{2}{\pi} \int_0^\infty \frac{x_i \Re(x)}{x^2 - x_i^2} dx
 
     Args:
         re (numpy.ndarray): The real values to transform.
@@ -198,7 +198,7 @@ def re2im_reciprocal(re: np.ndarray, x: np.ndarray) -> np.ndarray:
 
     .. math::
         \Delta \Im(x_i) = \Im(x_i) - \Im(\infty) =
-        \frac{2}{\pi} \int_0^\infty \frac{\Re(x)}{x_i - \frac{x^2}{x_i}} dx
+        -\frac{2}{\pi} \int_0^\infty \frac{\Re(x)}{x_i - \frac{x^2}{x_i}} dx
 
     Args:
         re (numpy.ndarray): The real values to transform.
-- 
2.43.0


From 1f188617b34ad5fe5322ab0035eefab2d591dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 32/59] fix: formula parameters may begin with the name of a
 function or constant

---
 src/elli/formula_parser/dispersion_function_grammar.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/formula_parser/dispersion_function_grammar.lark b/src/elli/formula_parser/dispersion_function_grammar.lark
index 7524723..ba9d55a 100644
--- a/src/elli/formula_parser/dispersion_function_grammar.lark
+++ b/src/elli/formula_parser/dispersion_function_grammar.lark
@@ -41,8 +41,8 @@
                  | NAME -> param_name
                  | BUILTIN -> builtin
 
-FUNC.1: "sin" | "cos" | "tan" | "sqrt" | "dawsn" | "ln" | "log" | "heaviside" 
-BUILTIN.1: "1j" | "pi" | "eps_0" | "hbar" | "h" | "c" 
+FUNC.1: /(sin|cos|tan|sqrt|dawsn|ln|log|heaviside)\b/
+BUILTIN.1: /(1j|pi|eps_0|hbar|h|c)\b/
 
 %import common.CNAME -> NAME
 %import common.SIGNED_NUMBER
-- 
2.43.0


From fc68b06718a5241aafe8a5f53de7a1e9b7cb717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 33/59] fix: unary minus in formulas binds weaker than powers

---
 .../dispersion_function_grammar.lark          | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/elli/formula_parser/dispersion_function_grammar.lark b/src/elli/formula_parser/dispersion_function_grammar.lark
index ba9d55a..1f79f9a 100644
--- a/src/elli/formula_parser/dispersion_function_grammar.lark
+++ b/src/elli/formula_parser/dispersion_function_grammar.lark
@@ -13,14 +13,20 @@
        | term "/" factor -> div
 
 ?factor: power
-       | power "**" power -> power
+       | power "**" exponent -> power
+       | "-" factor -> neg
+       | "+" factor
 
 
+?exponent: power
+         | "-" power -> neg
+         | "+" power
+
 ?power: "(" expression ")"
         | FUNC "(" expression ")" -> func
         | "sum" "[" repeated_expression "]" -> sum_expr
         | NAME -> single_param_name
-        | SIGNED_NUMBER -> number
+        | NUMBER -> number
         | BUILTIN -> builtin
 
 ?repeated_expression: repeated_term
@@ -33,11 +39,17 @@
                 | repeated_term "/" repeated_factor -> div
 
 ?repeated_factor: repeated_power
-                  | repeated_power "**" repeated_power -> power
+                | repeated_power "**" repeated_exponent -> power
+                | "-" repeated_factor -> neg
+                | "+" repeated_factor
+
+?repeated_exponent: repeated_power
+                  | "-" repeated_power -> neg
+                  | "+" repeated_power
 
 ?repeated_power: "(" repeated_expression ")"
                  | FUNC "(" repeated_expression ")" -> func
-                 | SIGNED_NUMBER -> number
+                 | NUMBER -> number
                  | NAME -> param_name
                  | BUILTIN -> builtin
 
@@ -45,7 +57,7 @@ FUNC.1: /(sin|cos|tan|sqrt|dawsn|ln|log|heaviside)\b/
 BUILTIN.1: /(1j|pi|eps_0|hbar|h|c)\b/
 
 %import common.CNAME -> NAME
-%import common.SIGNED_NUMBER
+%import common.NUMBER
 %import common.WS_INLINE
 
 %ignore WS_INLINE
\ No newline at end of file
-- 
2.43.0


From 0069d7e9b395aa05687aaf3a652ac415e92bb546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 34/59] fix: formulas accept scalar wavelengths and sums
 without the axis variable

---
 src/elli/dispersions/formula.py   | 2 +-
 src/elli/formula_parser/parser.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index f1954b8..d4e6c49 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -111,7 +111,7 @@ class FormulaParser(BaseDispersion):
     def __dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
         return FormulaTransformer(
             x_axis_name=self.f_axis_name,
-            x_axis_values=lbda,
+            x_axis_values=np.asarray(lbda),
             single_params=self.single_params,
             repeated_params=self.rep_params_dl,
         ).transform(parse_formula(self.formula))[1]
diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index be7e8fe..f6a9aed 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -129,7 +129,8 @@ class FormulaTransformer(Transformer):
 
     def sum_expr(self, expr):
         """Sum an expression"""
-        return expr.sum(axis=1)
+        shape = np.broadcast_shapes(np.shape(expr), (self.no_repeated_params,))
+        return np.broadcast_to(expr, shape).sum(axis=-1)
 
     def single_param_name(self, name):
         """Return a parameter inside a non-repeated section"""
@@ -144,8 +145,8 @@ class FormulaTransformer(Transformer):
     def param_name(self, name):
         """Return a parameter inside a repeated section"""
         if name == self.x_axis_name:
-            return np.einsum(
-                "i,j->ij", self.x_axis_values, np.ones(self.no_repeated_params)
+            return np.multiply.outer(
+                self.x_axis_values, np.ones(self.no_repeated_params)
             )
 
         if name in self.single_params:
-- 
2.43.0


From aa12485e2793434182cd09e69b6e691bbd4692bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 35/59] fix: Maxwell-Garnett mixture restores numpy's error
 settings also when it fails

---
 src/elli/materials.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index 868151e..2fd24cd 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -402,17 +402,12 @@ class MaxwellGarnettEMA(MixtureMaterial):
         e_g = self.guest_material.get_tensor(lbda)
 
         # Catch calculation warnings
-        old_settings = np.geterr()
-        np.seterr(invalid="ignore")
-
-        maxwell_garnett = (
-            e_h
-            * (2 * fraction * (e_g - e_h) + e_g + 2 * e_h)
-            / (2 * e_h + e_g - fraction * (e_g - e_h))
-        )
-
-        # Reset numpy settings
-        np.seterr(**old_settings)
+        with np.errstate(invalid="ignore"):
+            maxwell_garnett = (
+                e_h
+                * (2 * fraction * (e_g - e_h) + e_g + 2 * e_h)
+                / (2 * e_h + e_g - fraction * (e_g - e_h))
+            )
 
         epsilon = np.where(np.logical_and(e_h == 0, e_g == 0), e_h, maxwell_garnett)
         return epsilon
-- 
2.43.0


From 7825287fbd684bd309a28617d3661df350a110ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 36/59] fix: additional layers of a repeated block are whole
 layers, not single slices

---
 src/elli/structure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index 99cdd99..60a2185 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -133,15 +133,13 @@ class RepeatedLayers(AbstractLayer):
             List[Tuple[float, npt.NDArray]]:
                 Returns list of tuples [(thickness, dielectric tensor), ...]
         """
-        layers = []
-        for layer in self.layers:
-            layers += layer.get_permittivity_profile(lbda)
+        layers = [layer.get_permittivity_profile(lbda) for layer in self.layers]
 
         if self.before > 0:
             before = layers[-self.before :]
         else:
             before = []
-        return before + self.repetitions * layers + layers[: self.after]
+        return sum(before + self.repetitions * layers + layers[: self.after], [])
 
 
 class Layer(AbstractLayer):
-- 
2.43.0


From c9c95805cb76bce492d18fe44ad57183a71cda79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 37/59] fix: energy and wavenumber axes of Woollam files are
 converted, not scaled, to nm

---
 src/elli/importer/woollam.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index c0cc6e9..a5aa322 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -87,10 +87,8 @@ def scale_to_nm(unit: str, dataframe: pd.DataFrame) -> pd.DataFrame:
         pd.DataFrame: The dataframe with scaled wavelength axis.
     """
     try:
-        scaling = ureg(unit).to("nm").magnitude
-        dataframe.index = dataframe.index.set_levels(
-            dataframe.index.levels[1].astype(float) * scaling, level=1
-        )
+        axis = dataframe.index.levels[1].astype(float).to_numpy() * ureg(unit)
+        dataframe.index = dataframe.index.set_levels(axis.to("nm").magnitude, level=1)
 
         return dataframe
     except UndefinedUnitError:
-- 
2.43.0


From b2107496aba8d19ae70765f3003995139010d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 38/59] fix: CompleteEASE files may start with a negative delta

---
 src/elli/importer/woollam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index a5aa322..6d0d7b3 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -58,7 +58,7 @@ def _is_complete_ease_tabular(line: str) -> bool:
     Returns:
         bool: True if the line is in complete ease tabular layout.
     """
-    return bool(re.search(r"^[a-zA-Z]+\s+(\d+\.\d+\s+){5}\d+\.\d+$", line))
+    return bool(re.search(r"^[a-zA-Z]+\s+(-?\d+\.\d+\s+){5}\d+\.\d+$", line))
 
 
 def _is_tan_cos_format(line: str) -> bool:
-- 
2.43.0


From 48d3091a65510859cd599a0a05e09407c0917bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 39/59] fix: SpectraRay header is read with the encoding and
 decimal separator of the file

---
 src/elli/importer/spectraray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/spectraray.py b/src/elli/importer/spectraray.py
index 9835e82..1eba5b2 100644
--- a/src/elli/importer/spectraray.py
+++ b/src/elli/importer/spectraray.py
@@ -43,10 +43,10 @@ def read_spectraray_psi_delta(
     # index data correctly
     psi_delta_df.index.name = "Wavelength"
 
-    with open(fname) as f:
+    with open(fname, encoding=encoding) as f:
         header = f.readlines()[0]
 
-    aois = list(map(float, re.split(sep, header)[3::2]))
+    aois = [float(x.replace(decimal, ".")) for x in re.split(sep, header)[3::2]]
     index = pd.MultiIndex.from_product(
         [aois, ["Ψ", "Δ"]], names=["Angle of Incidence", ""]
     )
-- 
2.43.0


From 27db8058edc7ea993dea29a1011136a2dfec2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 40/59] fix: Accurion files without psi and delta are rejected
 instead of read as zeros

---
 src/elli/importer/accurion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/accurion.py b/src/elli/importer/accurion.py
index 94bbce3..ef3c00e 100644
--- a/src/elli/importer/accurion.py
+++ b/src/elli/importer/accurion.py
@@ -21,7 +21,7 @@ def read_accurion_psi_delta(fname: str) -> pd.DataFrame:
     psi_delta_df = pd.read_csv(
         fname, delimiter="\t", encoding=encoding, skiprows=0, header=0
     )[1:].astype(float)
-    psi_delta_df = psi_delta_df.reindex(columns=list(["AOI", "Lambda", "Delta", "Psi"]))
+    psi_delta_df = psi_delta_df[["AOI", "Lambda", "Delta", "Psi"]]
     psi_delta_df = psi_delta_df.rename(
         columns={
             "AOI": "Angle of Incidence",
-- 
2.43.0


From bb7b15e981c9bc2e5dd8705c55340ba0b2784169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 41/59] fix: NeXus data type is looked up in the configured
 sample group

---
 src/elli/importer/nexus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 717de05..c4e1abc 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -114,8 +114,10 @@ def read_nexus_psi_delta(
         group_names = NexusGroupNames()
 
     h5file = h5py.File(nxs_filename, "r")
-    if f"{group_names.entry}/sample/data_type" in h5file:
-        data_type = h5file[f"{group_names.entry}/sample/data_type"][()].decode("utf-8")
+    if f"{group_names.full_sample_path}/data_type" in h5file:
+        data_type = h5file[f"{group_names.full_sample_path}/data_type"][()].decode(
+            "utf-8"
+        )
     elif f"{group_names.entry}/data_collection/data_type" in h5file:
         data_type = h5file[f"{group_names.entry}/data_collection/data_type"][()].decode(
             "utf-8"
-- 
2.43.0


From c43f50a101c83e0597bd8049521e91f92d226f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 42/59] fix: database entries with two wavelength ranges are
 listed with the first one

---
 src/elli/database/refractive_index_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 7b88381..f519eba 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -101,7 +101,7 @@ class RII:
             r"(?P<authors>.*) "
             r"(?P<year>\d{4})[^:]*?: "
             r"((?P<comment1>.*); )?"
-            r"(?P<type1>.+) (?P<lower_range1>\d+(\.\d*)?(e\W?\d+)?)\W(?P<upper_range1>\d+(\.\d*)?(e\W?\d+)?) µm"
+            r"(?P<type1>.+?) (?P<lower_range1>\d+(\.\d*)?(e\W?\d+)?)\W(?P<upper_range1>\d+(\.\d*)?(e\W?\d+)?) µm"
             r"(, (?P<type2>.+) (?P<lower_range2>\d+(\.\d*)?(e\W?\d+)?).(?P<upper_range2>\d+(\.\d*)?(e\W?\d+)?) µm)?"
             r"(; (?P<comment2>.*))?"
         )
-- 
2.43.0


From c2ce42bda4e2866f8cad0a403680a30525cb0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 43/59] fix: database search lost entries without author, year
 or range

---
 src/elli/database/refractive_index_info.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index f519eba..370509f 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -236,10 +236,14 @@ class RII:
                     )
 
                     for s, _, _ in suggestions:
-                        index = np.logical_or(index, self.catalog[col] == s)
+                        index = np.logical_or(
+                            index, (self.catalog[col] == s).fillna(False)
+                        )
 
                 else:
-                    index = np.logical_or(index, self.catalog[col] == q)
+                    index = np.logical_or(
+                        index, (self.catalog[col] == q).fillna(False)
+                    )
 
         result = self.catalog.loc[index]
 
-- 
2.43.0


From d6abaa1e1cbbb4c6378d5735ed38c45cf125a009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 44/59] fix: database formulas may have one coefficient or any
 whitespace between them

---
 src/elli/database/refractive_index_info.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 370509f..b9ba40f 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -337,7 +337,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 1":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 a = coeffs[slice(1, len(coeffs), 2)]
                 b = coeffs[slice(2, len(coeffs), 2)]
@@ -350,7 +350,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 2":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 a = coeffs[slice(1, len(coeffs), 2)]
                 b = coeffs[slice(2, len(coeffs), 2)]
@@ -363,7 +363,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 3":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 f = coeffs[slice(1, len(coeffs), 2)]
                 e = coeffs[slice(2, len(coeffs), 2)]
@@ -376,7 +376,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 4":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 a = coeffs[slice(1, 6, 4)]
                 e1 = coeffs[slice(2, 7, 4)]
@@ -398,7 +398,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 5":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 f = coeffs[slice(1, len(coeffs), 2)]
                 e = coeffs[slice(2, len(coeffs), 2)]
-- 
2.43.0


From db64aa0849cab73bb3d435baadbb02d3a9ac3138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 45/59] fix: parameters shared their values with history
 entries and fit results they were updated from

---
 src/elli/fitting/params_hist.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index d7890d3..29164d9 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -82,7 +82,7 @@ class ParamsHist(Parameters):
             hist_pos (int): The history position to revert to.
         """
         if -len(self._history) <= hist_pos < len(self._history):
-            self.update(self._history[hist_pos])
+            self.update(copy.deepcopy(self._history[hist_pos]))
 
     def pop(self):
         """Gets to the previous history version and deletes the current element."""
@@ -112,6 +112,7 @@ class ParamsHist(Parameters):
             parameters (lmfit.Parameters):
                 The lmfit parameters object to update the values from.
         """
+        parameters = copy.deepcopy(parameters)
         self.commit()
         self.update(parameters)
 
-- 
2.43.0


From 02f55de2d6032e2845dca65c253e2877a9ad5aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 46/59] fix: reverting the parameter history kept parameters
 added later

---
 src/elli/fitting/params_hist.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index 29164d9..64e7a14 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -82,13 +82,24 @@ class ParamsHist(Parameters):
             hist_pos (int): The history position to revert to.
         """
         if -len(self._history) <= hist_pos < len(self._history):
-            self.update(copy.deepcopy(self._history[hist_pos]))
+            self._restore(self._history[hist_pos])
+
+    def _restore(self, parameters: Parameters) -> None:
+        """Sets the current parameters to a copy of an older version.
+
+        Args:
+            parameters (Parameters): The older version of the parameters.
+        """
+        for name in [name for name in self if name not in parameters]:
+            del self[name]
+
+        self.update(copy.deepcopy(parameters))
 
     def pop(self):
         """Gets to the previous history version and deletes the current element."""
         if len(self._history) > 0:
             curr_params = self.copy()
-            self.update(self._history[-1])
+            self._restore(self._history[-1])
             self._history = self._history[:-1]
 
             return curr_params
-- 
2.43.0


From a7825eba4399e3c627d356abf648cb6898a1ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 47/59] fix: rejected changes of tracked parameters grew the
 history

---
 src/elli/fitting/params_hist.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index 64e7a14..e9bc6f4 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -123,18 +123,25 @@ class ParamsHist(Parameters):
             parameters (lmfit.Parameters):
                 The lmfit parameters object to update the values from.
         """
+        if not isinstance(parameters, Parameters):
+            raise ValueError(f"'{parameters}' is not a Parameters object")
+
         parameters = copy.deepcopy(parameters)
         self.commit()
         self.update(parameters)
 
     def tracked_add(self, *args, **kwargs) -> None:
         """Adds a parameter and keeps track of the change in history"""
-        self.commit()
+        clone = copy.deepcopy(self)
         super().add(*args, **kwargs)
+        self._append(clone)
 
     def commit(self) -> None:
         """Saves the current parameter set to history."""
+        self._append(copy.deepcopy(self))
+
+    def _append(self, parameters: Parameters) -> None:
+        """Appends parameters to the history and drops the oldest ones if it is full."""
         if len(self._history) >= self._max_length:
             self._history = self._history[1:]
-        clone = copy.deepcopy(self)
-        self.history.append(clone)
+        self._history.append(parameters)
-- 
2.43.0


From 639335a93a5f0a9f23fc699fe2f81286855262fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 48/59] fix: fit button failed for lmfit parameters and added
 its start twice to the history

---
 src/elli/fitting/decorator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 87ad403..4151cac 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -1,6 +1,7 @@
 """Abstract base class for Decorator functions for convenient fitting"""
 
 # Encoding: utf-8
+import copy
 from abc import ABC, abstractmethod
 
 import pandas as pd
@@ -128,8 +129,9 @@ class FitDecorator(ABC):
         """
         self.fit(**self.fit_kwargs)
         if isinstance(self.params, ParamsHist):
-            self.params.commit()
-        self.params.update_params(self.fitted_params)
+            self.params.update_params(self.fitted_params)
+        else:
+            self.params.update(copy.deepcopy(self.fitted_params))
         self.update_widgets()
 
         self.update_selection()
-- 
2.43.0


From c76aec6d84cb50f437a045e7faf3449655caf9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 49/59] fix: saving the model data of psi/delta fits to csv
 failed

---
 src/elli/fitting/decorator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 4151cac..3ef357b 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -93,7 +93,9 @@ class FitDecorator(ABC):
                 Appends the experimental data if set to True.
                 Defaults to False.
         """
-        self.get_model_data(params, append_exp_data).to_csv(fname, *args, **kwargs)
+        self.get_model_data(params, append_exp_data=append_exp_data).to_csv(
+            fname, *args, **kwargs
+        )
 
     @abstractmethod
     def fit(self, method: str = "") -> None:
-- 
2.43.0


From 587f2ef07f6215efd66a41a1c182ac48e34d19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 50/59] fix: redo without undo in Mueller matrix fits added an
 entry to the history

---
 src/elli/fitting/decorator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 3ef357b..8dbcd77 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -45,7 +45,7 @@ class FitDecorator(ABC):
     def __init__(self) -> None:
         self.params = ParamsHist()
         self.fitted_params = ParamsHist()
-        self.last_params = ParamsHist()
+        self.last_params = None
         self.initial_params = ParamsHist()
         self.param_widgets = {}
         self.fit_kwargs = {}
-- 
2.43.0


From ef4a1b7c7e6d8a49a883cd153d7fd1eb2859004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 51/59] fix: Kramers-Kronig transforms flip their sign on
 descending axes

---
 src/elli/kkr/kkr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 9ebc7f1..f4c3530 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -126,7 +126,8 @@ def _calc_kkr(
         )
 
     integral = np.empty(len(t))
-    interval = np.diff(x, prepend=2 * x[0] - x[1])
+    # The integral always runs from zero to infinity, also for descending axes
+    interval = np.abs(np.diff(x, prepend=2 * x[0] - x[1]))
     odd_slice = slice(1, None, 2)
     even_slice = slice(0, None, 2)
 
-- 
2.43.0


From b8a3ff7fff68eddd95dbcf361f7da4ba8bcd84b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 52/59] fix: copies of converted dispersions were tied to the
 original

---
 src/elli/dispersions/base_dispersion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 42feb65..fc9e9d2 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -246,7 +246,9 @@ class Dispersion(BaseDispersion):
             {
                 "rep_params_template": self.rep_params_template,
                 "single_params_template": self.single_params_template,
-                "dielectric_function": self.dielectric_function,
+                "dielectric_function": lambda self, lbda: (
+                    self.dielectric_dispersion.dielectric_function(lbda)
+                ),
                 "refractive_index": lambda self, lbda: sqrt(
                     self.dielectric_function(lbda)
                 ),
@@ -254,6 +256,7 @@ class Dispersion(BaseDispersion):
         )
 
         idx_dispersion = AnonymousIndexDispersion(**self.single_params)
+        idx_dispersion.dielectric_dispersion = self
         idx_dispersion.rep_params = self.rep_params
         idx_dispersion.single_params = self.single_params
         idx_dispersion.default_lbda_range = self.default_lbda_range
-- 
2.43.0


From 52ce392594e6cf53c5e63782ea86475e9457ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 53/59] fix: result lists could not be copied (RecursionError)

---
 src/elli/result.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/elli/result.py b/src/elli/result.py
index afba717..0b2fa85 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -521,6 +521,10 @@ class ResultList:
             npt.NDArray: Array of data.
         """
 
+        # Attributes which are looked up on an uninitialized object while copying
+        if name == "results" or name.startswith("__"):
+            raise AttributeError(name)
+
         if name == "mean":
             return AveragedResultList(self.results)
 
@@ -551,6 +555,9 @@ class AveragedResultList(ResultList):
             npt.NDArray: Array of data.
         """
 
+        if name == "results" or name.startswith("__"):
+            raise AttributeError(name)
+
         if name == "mean":
             raise ValueError(
                 "The ResultList is already averaged and can't be averaged again."
-- 
2.43.0


From f45d46b3481efa9568a7c3807753aec37b6a838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 54/59] fix: formulas ignored terms added or changed after
 their creation

---
 src/elli/dispersions/formula.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index d4e6c49..3438a29 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -21,6 +21,14 @@ class FormulaParser(BaseDispersion):
     def rep_params_template(self) -> dict:
         return self.f_rep_params
 
+    @property
+    def rep_params_dl(self) -> Dict[str, npt.NDArray]:
+        """The current values of the repeated parameters of all terms"""
+        return {
+            key: np.array([params[key] for params in self.rep_params])
+            for key in self.f_rep_params
+        }
+
     def __init__(
         self,
         formula: str,
@@ -62,13 +70,6 @@ class FormulaParser(BaseDispersion):
         for rep_params_set in rep_params_sets:
             self.add(**rep_params_set)
 
-        self.rep_params_dl = {}
-        if self.rep_params:
-            self.rep_params_dl = {
-                k: np.array([dic[k] for dic in self.rep_params])
-                for k in self.rep_params[0]
-            }
-
         self.formula = formula
 
         self._check_repr()
-- 
2.43.0


From e7961abd9c777075e35804493c6b193d44b865c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 55/59] fix: copied formulas evaluated the parameters of the
 original and could not be pickled

---
 src/elli/dispersions/formula.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index 3438a29..ce97947 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -74,24 +74,20 @@ class FormulaParser(BaseDispersion):
 
         self._check_repr()
 
-        self._dispersion_function = self.__dispersion_function
+        self._scaling: float = 1
+        self._is_energy_axis: bool = False
         if unit is not None:
             self._set_unit_conversion(unit)
 
     def _set_unit_conversion(self, unit: str):
         quantity = ureg(unit)
         if quantity.check("[length]"):
-            scaling = ureg("nm").to(unit).magnitude
-            self._dispersion_function = lambda lbda: self.__dispersion_function(
-                scaling * lbda
-            )
+            self._scaling = ureg("nm").to(unit).magnitude
             return
 
         if quantity.check("[energy]"):
-            scaling = ureg("nm").to(unit).magnitude
-            self._dispersion_function = lambda lbda: self.__dispersion_function(
-                scaling / lbda
-            )
+            self._scaling = ureg("nm").to(unit).magnitude
+            self._is_energy_axis = True
             return
 
         raise ValueError(f"Unsupported unit `{unit}`.")
@@ -109,10 +105,13 @@ class FormulaParser(BaseDispersion):
                 f"Representation `{representation}` not supported by Formula"
             )
 
-    def __dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
+    def _dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
+        lbda = np.asarray(lbda)
+        axis = self._scaling / lbda if self._is_energy_axis else self._scaling * lbda
+
         return FormulaTransformer(
             x_axis_name=self.f_axis_name,
-            x_axis_values=np.asarray(lbda),
+            x_axis_values=np.asarray(axis),
             single_params=self.single_params,
             repeated_params=self.rep_params_dl,
         ).transform(parse_formula(self.formula))[1]
-- 
2.43.0


From 7a315bc768303aa3ab5bcab80960c8746c6ed9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:25 +0000
Subject: [PATCH 56/59] fix: Kramers-Kronig transforms of narrow or unsigned
 integer arrays

---
 src/elli/kkr/kkr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index f4c3530..c718be0 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -125,6 +125,9 @@ def _calc_kkr(
             f"but have lengths {len(t)} and {len(x)}."
         )
 
+    # Squares and differences of narrow or unsigned integers would wrap around
+    t, x = np.asarray(t, dtype=float), np.asarray(x, dtype=float)
+
     integral = np.empty(len(t))
     # The integral always runs from zero to infinity, also for descending axes
     interval = np.abs(np.diff(x, prepend=2 * x[0] - x[1]))
-- 
2.43.0


From 469f73b47471fe517a39fab664059ee8ca613bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:33 +0000
Subject: [PATCH 57/59] fix: Tauc-Lorentz permittivity is nan exactly at the
 band gap

---
 src/elli/dispersions/tauc_lorentz.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/tauc_lorentz.py b/src/elli/dispersions/tauc_lorentz.py
index e93182f..19cece6 100644
--- a/src/elli/dispersions/tauc_lorentz.py
+++ b/src/elli/dispersions/tauc_lorentz.py
@@ -4,6 +4,7 @@
 import numpy as np
 import numpy.typing as npt
 from numpy.lib.scimath import sqrt
+from scipy.special import xlogy
 
 from ..utils import conversion_wavelength_energy
 from .base_dispersion import Dispersion
@@ -40,14 +41,16 @@ class TaucLorentz(Dispersion):
         aA = (E**2 - Ei**2) * (Ei**2 + Eg**2) + Eg**2 * Ci**2
         zeta4 = (E**2 - gamma2) ** 2 + alpha**2 * Ci**2 / 4
 
+        # The two terms with log(abs(E - Eg)) are taken together: they compensate at the gap.
         # fmt: off
         return (
             Ai*Ci*aL/2.0/np.pi/zeta4/alpha/Ei*np.log((Ei**2 + Eg**2 + alpha*Eg)/(Ei**2 + Eg**2 - alpha*Eg)) - \
             Ai*aA/np.pi/zeta4/Ei*(np.pi - np.arctan((2.0*Eg + alpha)/Ci) + np.arctan((alpha - 2.0*Eg)/Ci)) + \
             2.0*Ai*Ei*Eg/np.pi/zeta4/alpha*(E**2 - gamma2)*(np.pi + 2.0*np.arctan(2.0/alpha/Ci*(gamma2 - Eg**2))) - \
-            Ai*Ei*Ci*(E**2 + Eg**2)/np.pi/zeta4/E*np.log(abs(E - Eg)/(E + Eg)) + \
+            Ai*Ei*Ci/np.pi/zeta4/E*xlogy((E - Eg)**2, abs(E - Eg)) + \
+            Ai*Ei*Ci*(E**2 + Eg**2)/np.pi/zeta4/E*np.log(E + Eg) + \
             2.0*Ai*Ei*Ci*Eg/np.pi/zeta4 * \
-            np.log(abs(E - Eg) * (E + Eg) / sqrt((Ei**2 - Eg**2)**2 + Eg**2 * Ci**2))
+            np.log((E + Eg) / sqrt((Ei**2 - Eg**2)**2 + Eg**2 * Ci**2))
         )
         # fmt: on
 
-- 
2.43.0


From 887c9024733f5bee32a6dc0888b2979412c46ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:48 +0000
Subject: [PATCH 58/59] fix: BruggemanEMA takes the physical root for lossless
 media of opposite sign

---
 src/elli/materials.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index 2fd24cd..58cea7e 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -453,7 +453,13 @@ class BruggemanEMA(MixtureMaterial):
 
         p = sqrt(e_h[mask_different]) / sqrt(e_g[mask_different])
         b = 0.25 * ((3 * f - 1) * (1 / p - p) + p)
-        z = b + sqrt(power(b, 2) + 0.5)
+        root = sqrt(power(b, 2) + 0.5)
+
+        # For lossless media of opposite sign the root may lie on the branch cut,
+        # where it is taken as the limit of vanishing absorption of both media.
+        side = ((1 - 3 * f) * (1 + 1 / power(p, 2)) + 1).real * b.imag
+        root = np.where(root.real == 0, 1j * np.copysign(root.imag, side), root)
+        z = b + root
 
         e_mix = np.full_like(e_h, np.nan)
         e_mix[mask_equal] = e_h[mask_equal]
-- 
2.43.0


From bc3e012bb527cef82eddf6bb38c327c18e06e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:31 +0000
Subject: [PATCH 59/59] fix: waves with opposite energy flow were taken for
 backward ones in anisotropic exit media

---
 src/elli/solver4x4.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index ac70374..34195ad 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -219,10 +219,12 @@ class Solver4x4(Solver):
         """
         q, p = np.linalg.eig(delta)
 
-        # Sort according to z propagation direction, by Im(q) first, then Re(q).
+        # Sort according to z propagation direction, by Im(q) first, for undamped modes
+        # by the direction of the energy flow, which may be opposite to the one of Re(q).
         # Rounding errors in Im(q) of undamped modes must not decide the direction.
         q_im = np.where(np.abs(q.imag) < 1e-9 * np.abs(q).max(), 0, q.imag)
-        idx = np.lexsort((-np.real(q), -q_im))
+        s_z = np.real(p[:, 0] * np.conj(p[:, 3]) - p[:, 1] * np.conj(p[:, 2]))
+        idx = np.lexsort((-np.real(q), -np.sign(np.where(q_im == 0, s_z, q_im))))
 
         q = np.take_along_axis(q, idx, axis=-1)
         p = np.take_along_axis(p, idx[:, np.newaxis, :], axis=-1)
-- 
2.43.0

