From 4d63f2b849187f35959b1815559bc8ba8e04220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 01/34] fix: Grid.vorticity_divergence raised NameError on
 every call

---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 315f60f..229d739 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -268,7 +268,7 @@ class Grid:
         Returns:
             Tuple of gridded (vorticity, divergence) fields.
         """
-        vort, div = vorticity_divergence_spectral(u, v)
+        vort, div = self.vorticity_divergence_spectral(u, v)
         return self.to_grid(vort), self.to_grid(div)
 
     def vorticity_divergence_spectral(self, u, v):
-- 
2.43.0


From a517cf3ce19b62cb95adf170429a7b132795f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 02/34] fix: Grid.equivalent_latitude accepts a single area as
 documented

---
 src/barotropic/grid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 229d739..1552b20 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -591,8 +591,7 @@ class Grid:
         # Calculate argument of arcsin
         sine = 1. - 0.5 * area / np.pi / self.rsphere**2
         # Make sure argument of arcsin is in [-1, 1]
-        sine[sine >=  1] =  1
-        sine[sine <= -1] = -1
+        sine = np.clip(sine, -1., 1.)
         # Equivalent latitude in degrees
         return np.rad2deg(np.arcsin(sine))
 
-- 
2.43.0


From 4521d7aa032248705055b6de6ff8fbbc48e9300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 03/34] fix: filter_by_wavenumber uses scipy.signal.windows
 (scipy.signal.hann was removed from scipy)

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0e3e01c..f88d828 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -216,7 +216,7 @@ def filter_by_wavenumber(field, wavenumber):
             convs.append(np.zeros_like(field))
             continue
         # Obtain the normalized Hann window for the current width
-        hann = scipy.signal.hann(width)
+        hann = scipy.signal.windows.hann(width)
         hann = hann / np.sum(hann)
         # Apply window along the zonal axis
         convs.append(scipy.signal.convolve2d(field, hann[None,:], mode="same", boundary="wrap"))
-- 
2.43.0


From 16b5d538ec8049d97ce57a4d6282255307333407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 04/34] fix: dominant_wavenumber_fourier was off by the lower
 end of the wavenumber range

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f88d828..f40f0da 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -116,7 +116,7 @@ def dominant_wavenumber_fourier(field, grid, smooth=("boxcar", 10), wavenumber_r
     # Compute Fourier power spectrum and determine wavenumber with maximum
     # power in the specified wavenumber range
     power = np.abs(np.fft.rfft(field, axis=_ZONAL)) ** 2
-    k_dom = np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
+    k_dom = k_min + np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
     # Apply smoothing if desired
     return k_dom if smooth is None else grid.filter_meridional(k_dom, *smooth)
 
-- 
2.43.0


From 875c3634f57a8e653c38212c721b9b5d84685ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 05/34] fix: zonal Fourier filtering keeps the last column of
 fields with an odd number of longitudes

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f40f0da..45be9c9 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -26,7 +26,7 @@ def _restrict_fourier_zonal(field, kmin, kmax):
     xfft = np.fft.rfft(field, axis=_ZONAL)
     xfft[:,      :kmin] = 0.
     xfft[:,kmax+1:    ] = 0.
-    return np.fft.irfft(xfft, axis=_ZONAL)
+    return np.fft.irfft(xfft, n=field.shape[_ZONAL], axis=_ZONAL)
 
 
 def fawa(pv_or_state, grid=None, levels=None, interpolate=True, quad="sptrapz"):
-- 
2.43.0


From 4e06e60873c25bdf5743c990ffbe636b51ac57dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 06/34] fix: Grid lost a row or column when 180/resolution was
 not exact in floating point

---
 src/barotropic/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 1552b20..4076f49 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -49,8 +49,8 @@ class Grid:
         # Setup longitude and latitude grid. Make sure longitude 0° is not
         # repeated and that both latitudes 90° and -90° exist. Latitudes start
         # at the North pole, which is the convention used by pyspharm.
-        self.nlon = int(360. / resolution)
-        self.nlat = int(180. / resolution) + 1
+        self.nlon = int(round(360. / resolution))
+        self.nlat = int(round(180. / resolution)) + 1
         self.lon = np.linspace( 0., 360., self.nlon, endpoint=False)
         self.lat = np.linspace(90., -90., self.nlat, endpoint=True)
         self.lon2, self.lat2 = np.meshgrid(self.lon, self.lat)
-- 
2.43.0


From cb80291a4e3dc5f3a46bee289a780d16bacf7953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 07/34] fix: solve_poisson with op_add dropped the global mean
 of the solution

---
 src/barotropic/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 4076f49..7b6c69d 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -380,6 +380,9 @@ class Grid:
         """:py:meth:`solve_poisson` with spectral in- and output fields."""
         solution = np.zeros_like(rhs_spec)
         solution[1:] = -rhs_spec[1:] / (self._laplacian_eigenvalues[1:] + op_add)
+        # The mean is only undetermined for the actual Poisson equation
+        if op_add != 0.:
+            solution[0] = -rhs_spec[0] / op_add
         return solution
 
     def solve_diffusion(self, field_grid, coeff, dt, order=1):
-- 
2.43.0


From 86eea117c3a7af3c1883b5826ea2f5d43f4aba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 08/34] fix: solve_diffusion overflowed to NaN for high
 diffusion orders

---
 src/barotropic/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 7b6c69d..1c36d37 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -410,8 +410,10 @@ class Grid:
 
     def solve_diffusion_spectral(self, field_spectral, coeff, dt, order=1):
         """:py:meth:`solve_diffusion` with spectral in- and output fields."""
-        eigenvalues_op = self._laplacian_eigenvalues ** order
-        return field_spectral / (1. + dt * coeff * eigenvalues_op)
+        # Single precision over-/underflows for higher orders of diffusion
+        eigenvalues_op = self._laplacian_eigenvalues.real.astype(float) ** order
+        solution = field_spectral / (1. + dt * coeff * eigenvalues_op)
+        return solution.astype(field_spectral.dtype, copy=False)
 
     # Area-weighted operators
 
-- 
2.43.0


From 91c5c3e2ecb61fe52c8af24848118a2346d8b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 09/34] fix: BarotropicModel.run always returns the saved
 states as a StateList

---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e480e8e..e2d0a96 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -71,7 +71,7 @@ class BarotropicModel:
 
         """
         if tend < state_init.time:
-            return state_init, [state_init]
+            return state_init, StateList([state_init])
         # First integration with Euler forward step (multistep leapfrog scheme
         # requires initialization)
         state = self.euler(state_init, dt)
-- 
2.43.0


From 3847ecf2114e962017cb70c7553cffa302a96755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 10/34] fix: BarotropicModel.run counts save_every from the
 initial time

---
 src/barotropic/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e2d0a96..c0d5c0a 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -78,7 +78,8 @@ class BarotropicModel:
         state, state_new = state_init, state
         # Save model states during the integration
         states = [state]
-        t_save = save_every
+        if save_every > 0:
+            t_save = state_init.time + save_every
         # Integrate one step further than requested so Robert-Asselin filter is
         # applied to model state at the end
         while state.time < tend:
-- 
2.43.0


From 6d0c80637bff691fb7ba6e5b6b57e1c4dba0d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 11/34] fix: extract_ks_waveguides returned NaN boundaries next
 to latitudes where Ks is -inf

---
 src/barotropic/diagnostics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 45be9c9..22c45fe 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -352,7 +352,12 @@ def extract_ks_waveguides(ks_or_state, k, grid=None):
             active = False
         # Waveguide starts if ks exceeds k
         elif not active and ks_s > k:
-            start = lat_n if np.isinf(ks_s) else lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
+            if np.isinf(ks_s):
+                start = lat_n
+            elif np.isinf(ks_n):
+                start = lat_n + grid.dlat
+            else:
+                start = lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
             active = True
     # Last waveguide must end at south pole
     if active:
-- 
2.43.0


From 6d41c30aa152549865f2e38a0dca75717444fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 12/34] fix: StateList can be copied and pickled

---
 src/barotropic/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 628d87c..8246860 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -456,6 +456,10 @@ class StateList(collections.abc.Sequence):
     # Broadcasting
 
     def __getattr__(self, name):
+        # Special methods are never broadcast (copy and pickle look these up on
+        # instances that are not initialized yet)
+        if name.startswith("__"):
+            raise AttributeError(name)
         # Need to separate simple attributes/properties and State methods:
         # Attribute access can be evaluated immediately. Method access is
         # converted to a partially evaluated function that collects the result
-- 
2.43.0


From 5a35174f510a9e338a9ba83888c186da09ac6dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 13/34] fix: from_dataset unpacks numeric times (repr and plots
 failed with a 0-dimensional array)

---
 src/barotropic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 9188ad8..cfa6e20 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -341,6 +341,8 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
                 # timezone info for now
                 timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
                 time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
+            elif isinstance(time, np.ndarray):
+                time = time.item()
         # Create State and add to collection
         states.append(as_state(time, field))
 
-- 
2.43.0


From 37b321971c5f3c079d719997eac36243aa227fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 14/34] fix: repr of an empty GridRegion raised IndexError

---
 src/barotropic/formatting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/formatting.py b/src/barotropic/formatting.py
index 98ed87c..202cb7f 100644
--- a/src/barotropic/formatting.py
+++ b/src/barotropic/formatting.py
@@ -50,9 +50,12 @@ def grid_region_repr(region):
     out[4] += " EQ"
     out[8] += " 90°S"
     out.append("    0°E              180°E")
+    # Empty selections have no first and last coordinate to show
+    lats = region.lat[[-1,0]] if region.lat.size else (np.nan, np.nan)
+    lons = region.lon[[0,-1]] if region.lon.size else (np.nan, np.nan)
     return "\n".join([
-        "Region {:6.2f} to {:6.2f} °N (nlat = {})".format(*region.lat[[-1,0]], region.shape[0]),
-        "       {:6.2f} to {:6.2f} °E (nlon = {})".format(*region.lon[[0,-1]], region.shape[1]),
+        "Region {:6.2f} to {:6.2f} °N (nlat = {})".format(*lats, region.shape[0]),
+        "       {:6.2f} to {:6.2f} °E (nlon = {})".format(*lons, region.shape[1]),
         "", *out, "",
         "of {}".format(repr(region._grid))
     ])
-- 
2.43.0


From 7b37eb7347827620b2a504f442ca54525dd61174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 15/34] fix: Grid comparison with other objects raised, slowly
 rotating planets were all equal

---
 src/barotropic/grid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 1c36d37..8ee42e2 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -84,10 +84,13 @@ class Grid:
         return formatting.grid_repr(self)
 
     def __eq__(self, other):
-        return (
+        if not isinstance(other, Grid):
+            return NotImplemented
+        # Only relative tolerances as omega is usually a very small number
+        return bool(
             self.shape == other.shape
-            and np.isclose(self.rsphere, other.rsphere)
-            and np.isclose(self.omega, other.omega)
+            and np.isclose(self.rsphere, other.rsphere, atol=0.)
+            and np.isclose(self.omega, other.omega, atol=0.)
             and self._ntrunc == other._ntrunc
         )
 
-- 
2.43.0


From a248634853eedf679c414d072269ddf53825919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 16/34] fix: equal Grid instances must have the same hash

---
 src/barotropic/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 8ee42e2..0c6b67b 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -95,7 +95,9 @@ class Grid:
         )
 
     def __hash__(self):
-        return hash((self.shape, self.rsphere, self.omega, self._ntrunc))
+        # rsphere and omega are only compared approximately in __eq__ and cannot
+        # contribute, as equal grids must have the same hash
+        return hash((self.shape, self._ntrunc))
 
     @property
     def shape(self):
-- 
2.43.0


From e60d445011a72ce2e6ed58b9b79e236781a0fd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 17/34] fix: wind vectors in summary plot ignored center_lon

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 2957e88..0d4b076 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -177,7 +177,7 @@ def summary(state, figsize=(11, 7), hemisphere="both", center_lon=180, pv_cmap="
     fig.colorbar(pvc, ax=ax12)
     n_vectors = 13 if hemisphere == "both" else 21
     if not (np.linalg.norm(state.u) == 0. and np.linalg.norm(state.v) == 0.):
-        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, state.u, state.v, n_vectors))
+        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, roll(state.u), roll(state.v), n_vectors))
     configure_lon_x(ax12)
     configure_lat_y(ax12, hemisphere)
     ax12.set_title("PV [$10^{-4} \\mathrm{s}^{-1}$] and wind vectors", loc="left")
-- 
2.43.0


From 6b22a7d0044368cd3937cfcce0a5d6b963b7c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 18/34] =?UTF-8?q?fix:=20roll=5Flon=20did=20not=20find=20th?=
 =?UTF-8?q?e=20closest=20meridian=20across=200=C2=B0?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/barotropic/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 0d4b076..96d4329 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -75,7 +75,8 @@ def roll_lon(lon, center=180):
     """
     center = center % 360
     cur_mid = lon.size // 2
-    new_mid = np.argmin(np.abs(lon - center))
+    # Closest meridian, distances are periodic
+    new_mid = np.argmin(np.abs((lon - center + 180) % 360 - 180))
     shift = cur_mid - new_mid
     return partial(np.roll, shift=shift, axis=_ZONAL), partial(configure_lon_x, offset=lon[shift])
 
-- 
2.43.0


From 3d5b3d1ce28f088811462dcb64a61fc151b941df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 19/34] fix: waveguides plot did not always tick wavenumber 0

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 96d4329..8069e93 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -376,7 +376,7 @@ def waveguides(state, k_waveguides=None, hemisphere="both", klim_bounds=(-5, 15)
     xmin = np.ceil(xmin)
     xmax = np.ceil(xmax)
     step = np.ceil((xmax - xmin) / 10)
-    xmin += xmin % step # guarantee that 0 is ticked
+    xmin += -xmin % step # guarantee that 0 is ticked
     ax2.set_xticks(np.arange(xmin, xmax, step))
     # Style y-axes as latitude and add a vertical line at 0
     for ax in (ax1, ax2):
-- 
2.43.0


From 15e7544c9a84983d924fc9eeaf58cf80289912f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 20/34] =?UTF-8?q?fix:=20GaussianMountain=20was=20cut=20off?=
 =?UTF-8?q?=20at=20the=200=C2=B0=20meridian?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/barotropic/rhs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/rhs.py b/src/barotropic/rhs.py
index 1611490..d4d021e 100644
--- a/src/barotropic/rhs.py
+++ b/src/barotropic/rhs.py
@@ -210,9 +210,11 @@ class GaussianMountain(Orography):
         self._stdev_lat_sq = stdev[1] ** 2
 
     def orography(self, grid):
+        # Zonal distance to the mountain is periodic
+        dlon = (grid.lon2 - self._center_lon + 180.) % 360. - 180.
         return (self._height
                 # Decaying in zonal direction
-                * ( np.exp(-0.5 * (grid.lon2 - self._center_lon)**2 / self._stdev_lon_sq) )
+                * ( np.exp(-0.5 * dlon**2 / self._stdev_lon_sq) )
                 # Decaying in meridional direction
                 * ( np.exp(-0.5 * (grid.lat2 - self._center_lat)**2 / self._stdev_lat_sq) ))
 
-- 
2.43.0


From 5a0137b422fce6e4214cd831a3d441970305b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 21/34] fix: region selection excluded boundary values that are
 subject to rounding

---
 src/barotropic/grid.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 0c6b67b..d22ea50 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -784,6 +784,11 @@ class Grid:
 
 
 
+def _leq(a, b):
+    # Coordinates are subject to rounding, e.g. 3 * 1.2 < 3.6
+    return (a <= b) | np.isclose(a, b)
+
+
 class GridRegionIndexer:
 
     def __init__(self, grid):
@@ -832,11 +837,11 @@ class GridRegionIndexer:
         if lo is None and hi is None:
             return indices
         elif lo is None:
-            return indices[self._grid.lat <= hi]
+            return indices[_leq(self._grid.lat, hi)]
         elif hi is None:
-            return indices[lo <= self._grid.lat]
+            return indices[_leq(lo, self._grid.lat)]
         else:
-            return indices[(min(lo, hi) <= self._grid.lat) & (self._grid.lat <= max(lo, hi))]
+            return indices[_leq(min(lo, hi), self._grid.lat) & _leq(self._grid.lat, max(lo, hi))]
 
     def _get_lon_indices(self, slc):
         # Single-value selection still returns full array but value is checked
@@ -862,14 +867,14 @@ class GridRegionIndexer:
         if lo is None and hi is None:
             return indices
         elif lo is None:
-            return indices[self._grid.lon <= hi]
+            return indices[_leq(self._grid.lon, hi)]
         elif hi is None:
-            return indices[lo <= self._grid.lon]
+            return indices[_leq(lo, self._grid.lon)]
         elif hi < lo:
-            lo_mask = lo <= self._grid.lon
-            return np.roll(indices[(self._grid.lon <= hi) | lo_mask], np.count_nonzero(lo_mask))
+            lo_mask = _leq(lo, self._grid.lon)
+            return np.roll(indices[_leq(self._grid.lon, hi) | lo_mask], np.count_nonzero(lo_mask))
         else:
-            return indices[(lo <= self._grid.lon) & (self._grid.lon <= hi)]
+            return indices[_leq(lo, self._grid.lon) & _leq(self._grid.lon, hi)]
 
 
 
-- 
2.43.0


From 0162dea7e354586c929dc28b547083e0e4fa89ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 22/34] =?UTF-8?q?fix:=20from=5Fdataset=20misplaced=20field?=
 =?UTF-8?q?s=20whose=20longitudes=20do=20not=20start=20at=200=C2=B0?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/barotropic/io.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index cfa6e20..8a5b4d5 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -283,6 +283,13 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert dlat < 0, "lat coordinate must be decreasing (N to S)"
     assert np.isclose(dlat, -dlon), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
 
+    # Grid longitudes start at 0°, rotate fields of other conventions accordingly
+    lon_dist = np.abs((lon.values + 180.) % 360. - 180.)
+    shift = int(np.argmin(lon_dist))
+    assert np.isclose(lon_dist[shift], 0., atol=1e-3), "0° not contained in lon coordinate"
+    if shift != 0:
+        ds = ds.roll({ lon.name: -shift }, roll_coords=True)
+
     # Instanciate Grid that matches dataset coordinates
     grid_kwargs = {} if grid_kwargs is None else grid_kwargs
     grid = Grid(resolution=dlon, **grid_kwargs)
-- 
2.43.0


From b7e651c41b36c00a781eb983e1289fd49b11235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 23/34] fix: from_dataset failed for dimensions without
 coordinates or with repeated values

---
 src/barotropic/io.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 8a5b4d5..fb17fa8 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -302,19 +302,19 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         data = ds[var_map["u"]]
         # Two fields required to initialize: proceed with DataArray of u for
         # data, and select matching v field during construction of the State
-        def as_state(t, da):
+        def as_state(t, da, sel):
             u = da.values
-            # Select matching meridional wind field (dims_flatten assigned below)
-            v = ds[var_map["v"]].sel({ dim: da.coords[dim] for dim in dims_flatten }).values
+            # Select matching meridional wind field
+            v = ds[var_map["v"]].isel(sel).values
             return State.from_wind(grid, t, u, v)
     # States from relative vorticity
     elif var_map["vo"] is not None:
         data = ds[var_map["vo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State.from_vorticity(grid, t, da.values)
+        as_state = lambda t, da, sel: State.from_vorticity(grid, t, da.values)
     # States from absolute vorticity
     elif var_map["avo"] is not None:
         data = ds[var_map["avo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State(grid, t, pv=da.values)
+        as_state = lambda t, da, sel: State(grid, t, pv=da.values)
     else:
         raise ValueError(
             "no fields for state construction detected, please specify"
@@ -327,15 +327,17 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     # Only 1-dimensional StateList output supported, so all dimensions other
     # than lon and lat are flattened
     dims_flatten = data.dims[:-2]
-    dims_values = [data.coords[dim].values for dim in dims_flatten]
+    # and accessed by position (coordinates may be missing or not unique)
+    dims_ranges = [range(data.sizes[dim]) for dim in dims_flatten]
 
     states = []
     # Because itertools.product returns an empty tuple when called without any
-    # arguments (here: when dims_values is empty), this also covers the case of
+    # arguments (here: when dims_ranges is empty), this also covers the case of
     # single field input with no flattened dimensions
-    for selection in itertools.product(*dims_values):
+    for indices in itertools.product(*dims_ranges):
         # Extract the current lon-lat field
-        field = data.sel(dict(zip(dims_flatten, selection)))
+        selection = dict(zip(dims_flatten, indices))
+        field = data.isel(selection)
         # Try to use time value from coordinates if possible, otherwise fall
         # back to fill value
         time = time_fill
@@ -351,7 +353,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
             elif isinstance(time, np.ndarray):
                 time = time.item()
         # Create State and add to collection
-        states.append(as_state(time, field))
+        states.append(as_state(time, field, selection))
 
     return StateList(states)
 
-- 
2.43.0


From 8c5bd82d41461ebf735af1a923370fe2296276de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 24/34] fix: derivative_meridional overflowed for small integer
 types, failed for booleans

---
 src/barotropic/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index d22ea50..0a4c0e9 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -320,6 +320,9 @@ class Grid:
         """
         f = np.asarray(f)
         assert f.ndim <= 2
+        # The stencils are not representable in small integer types
+        if f.dtype.kind in "biu":
+            f = f.astype(float)
         # Output has same shape as input
         out = np.zeros_like(f)
         if order == 2:
-- 
2.43.0


From f91805628fc9fd84dc2297a2d64203b4ea3d02b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 25/34] fix: as_dataset failed for iterators without states

---
 src/barotropic/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index fb17fa8..e16a33f 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -65,14 +65,14 @@ def as_dataset(states, fields=("u", "v"), concat_dim="time"):
     """
     import xarray as xr
     from . import __version__
-    # Empty input
-    if not states:
-        return xr.Dataset()
     # Compatibility for single-state input
     if isinstance(states, State):
         states = [states]
     # Convert into state collection for accessors and basic integrity checks
     states = StateList(states)
+    # Empty input (iterators are only known to be empty after conversion)
+    if not states:
+        return xr.Dataset()
     # Extract basic coordinates
     coords = dict()
     coords["latitude"] = xr.DataArray(states.grid.lat, dims=["latitude"], attrs={
-- 
2.43.0


From e9f547f70aa980b6db57fb163643925996d78ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 26/34] fix: State.add_wind with a (u,v)-tuple replaced the
 wind instead of adding to it

---
 src/barotropic/state.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 8246860..d5c92d0 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -107,13 +107,12 @@ class State:
         """
         if isinstance(other, State):
             assert self.grid is other.grid
-            u = self.u + other.u
-            v = self.v + other.v
+            u, v = other.u, other.v
         else:
             u, v = other
             assert self.grid.shape == u.shape
             assert self.grid.shape == v.shape
-        return State.from_wind(self.grid, self.time, u, v)
+        return State.from_wind(self.grid, self.time, self.u + u, self.v + v)
 
     def add_vorticity(self, other):
         """Relative vorticity-based addition of atmospheric states.
-- 
2.43.0


From 71b9a6266a559777a8d0a6299843504349107e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 27/34] fix: region selection with an array of latitudes raised
 ValueError instead of IndexError

---
 src/barotropic/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 0a4c0e9..aa26878 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -819,9 +819,9 @@ class GridRegionIndexer:
                 raise IndexError(f"latitude {slc} is not on the grid")
             return idx
         # Allow special values N and S to select hemispheres
-        if slc == "N":
+        if isinstance(slc, str) and slc == "N":
             slc = slice(0, 90)
-        if slc == "S":
+        if isinstance(slc, str) and slc == "S":
             slc = slice(-90, 0)
         # Selection must be a numeric slice without a step parameter
         if not isinstance(slc, slice):
-- 
2.43.0


From 24f1c971dc2b52c35fc892024e9a1abbb649eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 28/34] fix: region selection accepts any real number type
 (fractions)

---
 src/barotropic/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index aa26878..565f355 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -789,6 +789,7 @@ class Grid:
 
 def _leq(a, b):
     # Coordinates are subject to rounding, e.g. 3 * 1.2 < 3.6
+    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
     return (a <= b) | np.isclose(a, b)
 
 
@@ -814,7 +815,7 @@ class GridRegionIndexer:
     def _get_lat_indices(self, slc):
         # Single-value selection still returns full array but value is checked
         if isinstance(slc, Number):
-            idx = np.argwhere(np.isclose(self._grid.lat, slc)).flatten()
+            idx = np.argwhere(np.isclose(self._grid.lat, float(slc))).flatten()
             if idx.size != 1:
                 raise IndexError(f"latitude {slc} is not on the grid")
             return idx
@@ -849,7 +850,7 @@ class GridRegionIndexer:
     def _get_lon_indices(self, slc):
         # Single-value selection still returns full array but value is checked
         if isinstance(slc, Number):
-            idx = np.argwhere(np.isclose(self._grid.lon, slc)).flatten()
+            idx = np.argwhere(np.isclose(self._grid.lon, float(slc))).flatten()
             if idx.size != 1:
                 raise IndexError(f"longitude {slc} is not on the grid")
             return idx
-- 
2.43.0


From 5afa975c6686b28e9dbd82e5f85bfe57725a7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 29/34] fix: refuse datasets whose latitudes do not start at
 the North Pole

---
 src/barotropic/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index e16a33f..af3ec5d 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -282,6 +282,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert np.isclose(dlat, dlats).all(), "lat spacing is not regular"
     assert dlat < 0, "lat coordinate must be decreasing (N to S)"
     assert np.isclose(dlat, -dlon), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
+    assert np.isclose(lat[0], 90., atol=1e-3), "lat coordinate must start at the North Pole"
 
     # Grid longitudes start at 0°, rotate fields of other conventions accordingly
     lon_dist = np.abs((lon.values + 180.) % 360. - 180.)
-- 
2.43.0


From 0e83cf41f83aa33fdb682bd0a82baaa7c347fb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 30/34] fix: datasets with single precision coordinates of 1.8,
 2.4, ... degree grids were refused as irregular

---
 src/barotropic/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index af3ec5d..9f2b50c 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -264,11 +264,12 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     lon = ds.coords[var_map["lon"]]
     assert lon.ndim == 1, "lon coordinate must be one-dimensional"
     assert lon.size > 0, "lon coordinate is empty"
+    # Spacing of single precision coordinates is only accurate to a few digits
     dlons = np.diff(lon.values)
     dlon = dlons[0]
-    assert np.isclose(dlon, dlons).all(), "lon spacing is not regular"
+    assert np.isclose(dlon, dlons, rtol=1e-3).all(), "lon spacing is not regular"
     assert dlon > 0, "lon coordinate must be increasing (W to E)"
-    assert np.isclose(lon[-1] - lon[0], 360. - dlon), "lon coordinate irregular at periodic boundary"
+    assert np.isclose(lon[-1] - lon[0], 360. - dlon, rtol=0., atol=0.1*dlon), "lon coordinate irregular at periodic boundary"
 
     # Verify latitude coordinate
     if var_map["lat"] is None:
@@ -279,9 +280,9 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert lat.size - 1 == lon.size // 2, f"grid of shape [{lat.size}, {lon.size}] is not regular"
     dlats = np.diff(lat.values)
     dlat = dlats[0]
-    assert np.isclose(dlat, dlats).all(), "lat spacing is not regular"
+    assert np.isclose(dlat, dlats, rtol=1e-3).all(), "lat spacing is not regular"
     assert dlat < 0, "lat coordinate must be decreasing (N to S)"
-    assert np.isclose(dlat, -dlon), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
+    assert np.isclose(dlat, -dlon, rtol=1e-3), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
     assert np.isclose(lat[0], 90., atol=1e-3), "lat coordinate must start at the North Pole"
 
     # Grid longitudes start at 0°, rotate fields of other conventions accordingly
@@ -293,7 +294,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
 
     # Instanciate Grid that matches dataset coordinates
     grid_kwargs = {} if grid_kwargs is None else grid_kwargs
-    grid = Grid(resolution=dlon, **grid_kwargs)
+    grid = Grid(resolution=360. / lon.size, **grid_kwargs)
 
     # Consider multiple options to construct states:
     # States from horizontal wind components
-- 
2.43.0


From 3b85f9e0ea98fb78c512b127d61cfb27f57dfb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 31/34] fix: reduce_vectors accepts any number for ny as
 documented

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 8069e93..a60df9f 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -28,7 +28,7 @@ def reduce_vectors(x, y, u, v, ny):
     Returns:
         Tuple consisting of reduced **x**, **y**, **u** and **v**.
     """
-    spacing = max(y.shape[_MERIDIONAL] // ny, 1)
+    spacing = max(int(y.shape[_MERIDIONAL] // ny), 1)
     slicer = slice(spacing // 2, None, spacing), slice(spacing // 2, None, spacing)
     return x[slicer], y[slicer], u[slicer], v[slicer]
 
-- 
2.43.0


From 8d42fed41647e83607d6fbf20867be6da0500fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:16 +0000
Subject: [PATCH 32/34] fix: from_dataset returns numeric times in seconds for
 time differences

Time coordinates of exported datasets have units of seconds and may be
decoded to time differences by xarray. The imported states then had NumPy
time differences as times, which have no text representation and unclear
units in a model run.
---
 src/barotropic/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 9f2b50c..28e5288 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -352,6 +352,9 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
                 # timezone info for now
                 timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
                 time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
+            # Time differences are numeric times in seconds
+            elif isinstance(time, np.timedelta64):
+                time = float(time / np.timedelta64(1, "s"))
             elif isinstance(time, np.ndarray):
                 time = time.item()
         # Create State and add to collection
-- 
2.43.0


From 882827efd3e2a56c4916b3fe552f623eabf1419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 33/34] fix: pole values replace input at the poles in
 meridional interpolation

Contours beyond the extremes of a field have equivalent latitudes at the
poles. Interpolated local wave activity was NaN at the South Pole in this
case, and zonalized PV was not the maximum of the field at the North Pole.
---
 src/barotropic/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 565f355..572267a 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -696,6 +696,10 @@ class Grid:
         assert len(pole_values) == 2
         pad = (1, 1) if field.ndim == 1 else ((1, 1), (0, 0))
         axis = -1    if field.ndim == 1 else MERIDIONAL
+        # Pole values replace input at the poles (there cannot be two values at
+        # one latitude)
+        inner = np.abs(lat) < 90.
+        lat, field = np.compress(inner, lat), np.compress(inner, field, axis=axis)
         x = np.pad(lat, pad_width=(1, 1), mode="constant", constant_values=(90., -90.))
         y = np.pad(field, pad_width=pad, mode="constant", constant_values=pole_values)
         return scipy.interpolate.interp1d(x, y, axis=axis, kind=kind, copy=False)
-- 
2.43.0


From 94aafe564a5b0bef5071b8ff1bd6e542fa6d0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:15 +0000
Subject: [PATCH 34/34] fix: figures of states without PV or waves (contour
 levels must be increasing)

---
 src/barotropic/plot.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index a60df9f..10b9926 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -242,7 +242,8 @@ def wave_activity(state, figsize=(11, 7), hemisphere="both", center_lon=180, fal
     devpvc = ax12.contourf(grid.lon2, grid.lat2, roll(devpv), levels=symmetric_levels(devpv, 10), cmap="RdBu")
     devpvb = fig.colorbar(devpvc, ax=ax12)
     pv_levels = np.linspace(np.min(pv), np.max(pv), 10 if hemisphere == "both" else 14)[1:-1]
-    ax12.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
+    if pv_levels[0] != pv_levels[-1]:
+        ax12.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
     configure_lon_x(ax12)
     configure_lat_y(ax12, hemisphere)
     ax12.set_title("deviation from equiv. lat. PV [$10^{-4} \\mathrm{s}^{-1}$] and PV", loc="left")
@@ -255,7 +256,8 @@ def wave_activity(state, figsize=(11, 7), hemisphere="both", center_lon=180, fal
     # Panel: FALWA
     wac = ax22.contourf(grid.lon2, grid.lat2, roll(state.falwa), cmap=falwa_cmap)
     fig.colorbar(wac, ax=ax22)
-    ax22.contour(grid.lon2, grid.lat2, roll(pv), linestyles="-", colors="k", levels=pv_levels)
+    if pv_levels[0] != pv_levels[-1]:
+        ax22.contour(grid.lon2, grid.lat2, roll(pv), linestyles="-", colors="k", levels=pv_levels)
     configure_lon_x(ax22)
     configure_lat_y(ax22, hemisphere)
     ax22.set_title("FALWA [$\\mathrm{m} \\mathrm{s}^{-1}$] and PV", loc="left")
@@ -300,7 +302,7 @@ def rwp_diagnostics(state, figsize=(8, 10.5), hemisphere="both", center_lon=180,
     ffalwa = diagnostics.filter_by_wavenumber(state.falwa, 2*dwn)
     if rwp_max is None:
         rwp_max = max(np.max(env), np.max(ffalwa))
-    rwp_levels = np.linspace(0, rwp_max, 6)
+    rwp_levels = np.linspace(0, rwp_max if rwp_max > 0. else 1., 6)
     # RWP envelope and streamfunction
     ax2.set_title("RWP envelope [$\\mathrm{m} \\mathrm{s}^{-1}$] and streamfunction", loc="left")
     ctf = ax2.contourf(grid.lon2, grid.lat2, roll(env), cmap=rwp_cmap, levels=rwp_levels, extend="max")
@@ -315,7 +317,8 @@ def rwp_diagnostics(state, figsize=(8, 10.5), hemisphere="both", center_lon=180,
     fig.colorbar(ctf, ax=ax3)
     pv = state.pv
     pv_levels = np.linspace(np.min(pv), np.max(pv), 10 if hemisphere == "both" else 14)[1:-1]
-    ax3.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
+    if pv_levels[0] != pv_levels[-1]:
+        ax3.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
     # Common styling
     for ax in (ax1, ax2, ax3):
         configure_lon_x(ax)
-- 
2.43.0

