From 18066384f56efd03c236bb87b79bd7742607e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:22 +0000
Subject: [PATCH 1/7] fix: report skill as out of sync when entry types differ
 or content changed unnoticed

skill_status compared folders without looking at names that are a file on one
side and a folder on the other, and reused cached comparisons of files whose
size and modification time were unchanged. Both made an altered skill look in
sync.
---
 python/src/adctoolbox/skill_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/skill_cli.py b/python/src/adctoolbox/skill_cli.py
index affd571..59118cc 100644
--- a/python/src/adctoolbox/skill_cli.py
+++ b/python/src/adctoolbox/skill_cli.py
@@ -74,8 +74,9 @@ def bundled_skill_dir(skill_name: str) -> Path:
 
 def _dirs_equal(left: Path, right: Path) -> bool:
     """Return True when two small directory trees have identical file content."""
+    filecmp.clear_cache()  # cached results miss edits that keep size and mtime
     cmp = filecmp.dircmp(left, right)
-    if cmp.left_only or cmp.right_only or cmp.funny_files:
+    if cmp.left_only or cmp.right_only or cmp.common_funny or cmp.funny_files:
         return False
     for name in cmp.common_files:
         if not filecmp.cmp(left / name, right / name, shallow=False):
-- 
2.43.0


From 1141a74e79f8d22e709080f67ca42590192c36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:22 +0000
Subject: [PATCH 2/7] fix: report status of a skill link that points at itself

Resolving a symlink loop raises RuntimeError, which ended the status command
with a traceback. Such a link is an editable link that is not in sync.
---
 python/src/adctoolbox/skill_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/skill_cli.py b/python/src/adctoolbox/skill_cli.py
index 59118cc..9a34434 100644
--- a/python/src/adctoolbox/skill_cli.py
+++ b/python/src/adctoolbox/skill_cli.py
@@ -111,7 +111,7 @@ def skill_status(
             mode = "editable-link"
             try:
                 synced = target_dir.resolve() == source_dir.resolve()
-            except FileNotFoundError:
+            except (OSError, RuntimeError):
                 synced = False
         elif target_dir.is_dir():
             mode = "copy"
-- 
2.43.0


From 4c4634bade884c19c55bc2ab6b03d8eb8549abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:22 +0000
Subject: [PATCH 3/7] fix: install skills by renaming a finished copy into
 place

The installer removed the old skill first and then copied file by file into
the final place. A full disk, an error or a kill left a half-written skill,
and a failed forced install lost the previous one. The copy is now made next
to the final place and renamed into it; the old skill is put back if that
fails. Losing a race for the place is reported as an error.
---
 python/src/adctoolbox/skill_cli.py | 46 +++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/python/src/adctoolbox/skill_cli.py b/python/src/adctoolbox/skill_cli.py
index 9a34434..dc939de 100644
--- a/python/src/adctoolbox/skill_cli.py
+++ b/python/src/adctoolbox/skill_cli.py
@@ -4,8 +4,10 @@ from __future__ import annotations
 
 import argparse
 import filecmp
+import os
 import shutil
 import sys
+import tempfile
 from importlib import resources
 from pathlib import Path
 
@@ -157,21 +159,33 @@ def install_bundled_skills(
         target_dir = install_root / skill_name
         source_dir = bundled_skill_dir(skill_name)
 
-        if target_dir.exists() or target_dir.is_symlink():
-            if not overwrite:
-                raise FileExistsError(
-                    f"Destination already exists: {target_dir}. "
-                    "Use --force to replace it."
-                )
-            if target_dir.is_symlink() or target_dir.is_file():
-                target_dir.unlink()
-            else:
-                shutil.rmtree(target_dir)
-
-        if editable:
-            target_dir.symlink_to(source_dir, target_is_directory=True)
-        else:
-            shutil.copytree(source_dir, target_dir)
+        occupied = target_dir.exists() or target_dir.is_symlink()
+        if occupied and not overwrite:
+            raise FileExistsError(
+                f"Destination already exists: {target_dir}. "
+                "Use --force to replace it."
+            )
+
+        # Copy next to the final place and rename into it, so that a failed or
+        # interrupted install never leaves a partial skill or loses the old one.
+        with tempfile.TemporaryDirectory(
+            prefix=f".{skill_name}-", dir=install_root
+        ) as work_dir:
+            staged_dir = Path(work_dir) / "new"
+            previous_dir = Path(work_dir) / "previous"
+            if not editable:
+                shutil.copytree(source_dir, staged_dir)
+            try:
+                if occupied:
+                    target_dir.rename(previous_dir)
+                if editable:
+                    target_dir.symlink_to(source_dir, target_is_directory=True)
+                else:
+                    staged_dir.rename(target_dir)
+            except BaseException:
+                if os.path.lexists(previous_dir) and not os.path.lexists(target_dir):
+                    previous_dir.rename(target_dir)
+                raise
         installed_paths.append(target_dir)
 
     return installed_paths
@@ -282,7 +296,7 @@ def main(argv: list[str] | None = None) -> int:
             overwrite=args.force,
             editable=args.editable,
         )
-    except (FileExistsError, ValueError) as exc:
+    except (OSError, ValueError) as exc:
         print(f"[Error] {exc}", file=sys.stderr)
         return 1
 
-- 
2.43.0


From d1692982aa7ade9d1da70e3940e7a37e79a2cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:34 +0000
Subject: [PATCH 4/7] fix: leave figures and backend alone in error spectra
 without a plot

With create_plot=False the error and error-envelope spectra switched the
plotting backend, drew on the current figure and closed it. They now ask the
spectrum analysis not to plot at all.
---
 .../adctoolbox/aout/analyze_error_envelope_spectrum.py   | 9 +--------
 python/src/adctoolbox/aout/analyze_error_spectrum.py     | 9 +--------
 2 files changed, 2 insertions(+), 16 deletions(-)

diff --git a/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py b/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
index f60e6fb..76c08a8 100644
--- a/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
+++ b/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
@@ -100,14 +100,7 @@ def analyze_error_envelope_spectrum(signal, fs=1, frequency=None, create_plot: b
             plt.gca().set_title(title, fontsize=10, fontweight='bold')
     else:
         # Analyze without plotting
-        import matplotlib
-        backend_orig = matplotlib.get_backend()
-        matplotlib.use('Agg')  # Non-interactive backend
-
-        result = analyze_spectrum(env, fs=fs, show_label=False, max_harmonic=5)
-        plt.close()
-
-        matplotlib.use(backend_orig)  # Restore original backend
+        result = analyze_spectrum(env, fs=fs, create_plot=False, show_label=False, max_harmonic=5)
 
     # Add error signal and envelope to result
     result['error_signal'] = error_signal
diff --git a/python/src/adctoolbox/aout/analyze_error_spectrum.py b/python/src/adctoolbox/aout/analyze_error_spectrum.py
index 81819f5..0430d8d 100644
--- a/python/src/adctoolbox/aout/analyze_error_spectrum.py
+++ b/python/src/adctoolbox/aout/analyze_error_spectrum.py
@@ -89,14 +89,7 @@ def analyze_error_spectrum(signal, fs=1, frequency=None, create_plot: bool = Tru
             plt.gca().set_title(title, fontsize=10, fontweight='bold')
     else:
         # Analyze without plotting
-        import matplotlib
-        backend_orig = matplotlib.get_backend()
-        matplotlib.use('Agg')  # Non-interactive backend
-
-        result = analyze_spectrum(error_signal, fs=fs, show_label=False, max_harmonic=5)
-        plt.close()
-
-        matplotlib.use(backend_orig)  # Restore original backend
+        result = analyze_spectrum(error_signal, fs=fs, create_plot=False, show_label=False, max_harmonic=5)
 
     # Add error signal to results
     result['error_signal'] = error_signal
-- 
2.43.0


From dc2ae148d3833180c77f7e417c36c7d4a9c6c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:16 +0000
Subject: [PATCH 5/7] fix: raise when the AM/PM noise fit does not converge

A least-squares failure was replaced by zero coefficients, so the phase error
analysis reported zero AM and PM noise as if it had been measured. The sine
fit before it already raises in the same situation.
---
 python/src/adctoolbox/aout/_fit_error_phase.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/python/src/adctoolbox/aout/_fit_error_phase.py b/python/src/adctoolbox/aout/_fit_error_phase.py
index 346610a..2850034 100644
--- a/python/src/adctoolbox/aout/_fit_error_phase.py
+++ b/python/src/adctoolbox/aout/_fit_error_phase.py
@@ -55,10 +55,7 @@ def _fit_error_phase(
         X = np.column_stack([am_sensitivity, pm_sensitivity])
 
     # Solve least-squares
-    try:
-        coeffs, _, _, _ = np.linalg.lstsq(X, y, rcond=None)
-    except np.linalg.LinAlgError:
-        coeffs = np.zeros(3 if include_base_noise else 2)
+    coeffs, _, _, _ = np.linalg.lstsq(X, y, rcond=None)
 
     # Extract parameters (ensure non-negative)
     am_variance_v2 = max(0.0, coeffs[0])
-- 
2.43.0


From 8065dd68ecea83c0944a6d456952ae55b8f4926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:07 +0000
Subject: [PATCH 6/7] fix: lay out the figure that was plotted on, not
 whichever is current

With a pair of axes the plot helpers called pyplot's tight_layout, which
moves the axes of the current figure even when the given axes belong to
another one.
---
 python/src/adctoolbox/aout/plot_decomposition_time.py        | 2 +-
 python/src/adctoolbox/aout/plot_rearranged_error_by_phase.py | 2 +-
 python/src/adctoolbox/aout/plot_rearranged_error_by_value.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/adctoolbox/aout/plot_decomposition_time.py b/python/src/adctoolbox/aout/plot_decomposition_time.py
index 47a84fd..085147e 100644
--- a/python/src/adctoolbox/aout/plot_decomposition_time.py
+++ b/python/src/adctoolbox/aout/plot_decomposition_time.py
@@ -171,4 +171,4 @@ def plot_decomposition_time(
 
     # Tight layout if we created the figure structure ourselves
     if ax is None:
-        plt.tight_layout()
+        ax1.get_figure().figure.tight_layout()
diff --git a/python/src/adctoolbox/aout/plot_rearranged_error_by_phase.py b/python/src/adctoolbox/aout/plot_rearranged_error_by_phase.py
index ae8fdd9..5b89f39 100644
--- a/python/src/adctoolbox/aout/plot_rearranged_error_by_phase.py
+++ b/python/src/adctoolbox/aout/plot_rearranged_error_by_phase.py
@@ -182,4 +182,4 @@ def plot_rearranged_error_by_phase(results: dict, axes=None, ax=None, title: str
     ax2.grid(True, alpha=0.3)
 
     if ax is None:
-        plt.tight_layout()
+        ax1.get_figure().figure.tight_layout()
diff --git a/python/src/adctoolbox/aout/plot_rearranged_error_by_value.py b/python/src/adctoolbox/aout/plot_rearranged_error_by_value.py
index 743de13..6a56c80 100644
--- a/python/src/adctoolbox/aout/plot_rearranged_error_by_value.py
+++ b/python/src/adctoolbox/aout/plot_rearranged_error_by_value.py
@@ -125,4 +125,4 @@ def plot_rearranged_error_by_value(results: dict, axes=None, ax=None, title: str
 
     # Tight layout if we created the figure structure ourselves
     if ax is None:
-        plt.tight_layout()
+        ax1.get_figure().figure.tight_layout()
-- 
2.43.0


From 8a959f19076c5abf2174665439884d8dc97e5d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:30:04 +0000
Subject: [PATCH 7/7] fix: plot an INL/DNL result without values instead of
 raising

A record that stays on two codes or fewer has empty DNL and INL arrays.
analyze_inl_from_sine returned them without a plot but raised ValueError
when asked to plot. Values that are not finite failed the same way.
---
 python/src/adctoolbox/aout/plot_dnl_inl.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/src/adctoolbox/aout/plot_dnl_inl.py b/python/src/adctoolbox/aout/plot_dnl_inl.py
index 041ac76..f5a560f 100644
--- a/python/src/adctoolbox/aout/plot_dnl_inl.py
+++ b/python/src/adctoolbox/aout/plot_dnl_inl.py
@@ -92,8 +92,9 @@ def plot_dnl_inl(
 
     # Set titles on subplots
     if show_title:
-        dnl_min, dnl_max = np.min(dnl), np.max(dnl)
-        inl_min, inl_max = np.min(inl), np.max(inl)
+        # A record on two codes or fewer has no DNL/INL values
+        dnl_min, dnl_max = (np.min(dnl), np.max(dnl)) if len(dnl) else (np.nan, np.nan)
+        inl_min, inl_max = (np.min(inl), np.max(inl)) if len(inl) else (np.nan, np.nan)
 
         # Column title on DNL axis if provided
         if col_title is not None:
@@ -149,11 +150,13 @@ def _plot_single_curve(ax, code, data, num_bits=None, ylabel='Data (LSB)', color
         ax.set_xticks([0, 0.25, 0.5, 0.75, 1.0])
         ax.set_xticklabels(['0', '0.25', '0.5', '0.75', '1'])
     else:
-        ax.set_xlim([np.min(code), np.max(code)])
+        if code.size:
+            ax.set_xlim([np.min(code), np.max(code)])
         ax.set_xlabel('Code (LSB)')
 
     # Set y-axis limits: minimum ±1, or 1.2x data range if larger
-    data_min, data_max = np.min(data), np.max(data)
+    data = np.asarray(data)[np.isfinite(data)]
+    data_min, data_max = (np.min(data), np.max(data)) if data.size else (0.0, 0.0)
     data_range = max(abs(data_min), abs(data_max))
     if data_range <= 1.0:
         ax.set_ylim([-1, 1])
-- 
2.43.0

