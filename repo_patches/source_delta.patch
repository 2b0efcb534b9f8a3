From 25e48b21b8e539da8cfff3b9ea9a4a95596f4e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 01/80] fix: store config where the reader looks for it

---
 shepherd_core/shepherd_core/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 7f36874..3336699 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -371,7 +371,7 @@ class Writer(Reader):
         TODO: use data-model?
         :param data: from virtual harvester or converter / source.
         """
-        self.h5file.attrs["config"] = yaml.safe_dump(
+        self.h5file["data"].attrs["config"] = yaml.safe_dump(
             data, default_flow_style=False, sort_keys=False
         )
 
-- 
2.43.0


From 1c0d3bb82c6aa2ff2c544372df3ef942d09fd862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 02/80] fix: derive sample interval from the number of
 intervals, not samples

---
 shepherd_core/shepherd_core/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 29bff8c..1f86f0d 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -179,7 +179,8 @@ class Reader:
         if (sample_count > 0) and (duration_raw > 0):
             # this assumes iso-chronous sampling
             duration_s = self._cal.time.raw_to_si(duration_raw)
-            self.sample_interval_s = duration_s / sample_count
+            # ⤷ n samples span (n - 1) intervals
+            self.sample_interval_s = duration_s / (sample_count - 1)
             self.sample_interval_ns = round(10**9 * self.sample_interval_s)
             self.samplerate_sps = max(round((sample_count - 1) / duration_s), 1)
         self.runtime_s = round(self.ds_voltage.shape[0] / self.samplerate_sps, 1)
-- 
2.43.0


From 6796e8033f9984f446be4da25f1deb6b8f1672f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 03/80] fix: create recordings exclusively, racing writers can
 no longer truncate each other

---
 shepherd_core/shepherd_core/writer.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 3336699..bea30f1 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -61,7 +61,7 @@ def unique_path(base_path: Union[str, Path], suffix: str) -> Path:
     counter = 0
     while True:
         path = Path(base_path).with_suffix(f".{counter}{suffix}")
-        if not path.exists():
+        if not (path.exists() or path.is_symlink()):
             return path
         counter += 1
 
@@ -142,10 +142,12 @@ class Writer(Reader):
         if self._modify:
             self.h5file = h5py.File(self.file_path, "r+")  # = rw
         else:
-            if not self.file_path.parent.exists():
-                self.file_path.parent.mkdir(parents=True)
-            self.h5file = h5py.File(self.file_path, "w")
-            # ⤷ write, truncate if exist
+            self.file_path.parent.mkdir(parents=True, exist_ok=True)
+            if force_overwrite:
+                self.h5file = h5py.File(self.file_path, "w")
+                # ⤷ write, truncate if exist
+            else:
+                self.h5file = self._create_exclusively(file_path)
             self._create_skeleton()
 
         # Handle Mode
@@ -228,6 +230,16 @@ class Writer(Reader):
         self.is_valid()
         self.h5file.close()
 
+    def _create_exclusively(self, file_path: Path) -> h5py.File:
+        """Create a new file without ever touching one that appeared in the meantime."""
+        while True:
+            try:
+                return h5py.File(self.file_path, "x")
+            except FileExistsError:  # noqa: PERF203
+                # another writer was faster -> choose next free name
+                base_dir = file_path.resolve().parents[0]
+                self.file_path = unique_path(base_dir / file_path.stem, file_path.suffix)
+
     def _create_skeleton(self) -> None:
         """Initialize the structure of the HDF5 file.
 
-- 
2.43.0


From 31ad4f4989bc68797ba5118f2f8d2232339ef3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 04/80] fix: refuse unusable writer-arguments before touching a
 file and always release it

---
 shepherd_core/shepherd_core/writer.py | 96 ++++++++++++++++++++-------
 1 file changed, 73 insertions(+), 23 deletions(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index bea30f1..7fcd576 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -138,6 +138,19 @@ class Writer(Reader):
                 self.file_path.name,
             )
 
+        # refuse unusable arguments before touching any file
+        if isinstance(mode, str) and mode not in self.mode_dtype_dict:
+            msg = f"Can't handle mode '{mode}' (choose one of {self.mode_dtype_dict})"
+            raise ValueError(msg)
+        if isinstance(datatype, str):
+            datatype = EnergyDType[datatype]
+        if not self._modify:
+            self._check_parameters(
+                mode or self.mode_default,
+                datatype or self.datatype_default,
+                window_samples or 0,
+            )
+
         # open file
         if self._modify:
             self.h5file = h5py.File(self.file_path, "r+")  # = rw
@@ -148,36 +161,72 @@ class Writer(Reader):
                 # ⤷ write, truncate if exist
             else:
                 self.h5file = self._create_exclusively(file_path)
-            self._create_skeleton()
 
-        # Handle Mode
-        if isinstance(mode, str) and mode not in self.mode_dtype_dict:
-            msg = f"Can't handle mode '{mode}' (choose one of {self.mode_dtype_dict})"
+        try:
+            if self._modify:
+                self._check_content(mode, datatype, window_samples)
+            else:
+                self._create_skeleton()
+            self._store_parameters(mode, datatype, window_samples, cal_data)
+            super().__init__(file_path=None, verbose=verbose)
+        except BaseException:
+            self.h5file.close()
+            raise
+
+    def _check_parameters(
+        self,
+        mode: str,
+        datatype: Optional[EnergyDType],
+        window_samples: Optional[int] = None,
+    ) -> None:
+        """Refuse combinations of parameters that can't be recorded."""
+        _dtypes = self.mode_dtype_dict[mode]
+        if datatype not in _dtypes:
+            msg = f"Can't handle value '{datatype}' of datatype (choose one of {_dtypes})"
             raise ValueError(msg)
 
+        if datatype == EnergyDType.ivcurve and window_samples is not None and window_samples < 1:
+            raise ValueError("Window Size argument needed for ivcurve-Datatype")
+
+    def _check_content(
+        self,
+        mode: Optional[str],
+        datatype: Optional[EnergyDType],
+        window_samples: Optional[int],
+    ) -> None:
+        """Make sure that the opened file can be modified as requested."""
+        grp_data = self.h5file["data"]
+        for ds in ["time", "current", "voltage"]:
+            if ds not in grp_data:
+                msg = f"Dataset '{ds}' not found in '{self.file_path.name}'"
+                raise KeyError(msg)
+        mode = mode or self.get_mode() or self.mode_default
+        if datatype is None:
+            stored = "datatype" in grp_data.attrs
+            self._check_parameters(mode, self.get_datatype() if stored else self.datatype_default)
+        else:
+            if window_samples is None:
+                window_samples = self.get_window_samples()
+            self._check_parameters(mode, datatype, window_samples)
+
+    def _store_parameters(
+        self,
+        mode: Optional[str],
+        datatype: Optional[EnergyDType],
+        window_samples: Optional[int],
+        cal_data: Union[CalSeries, CalEmu, CalHrv, None],
+    ) -> None:
+        # Handle Mode
         if mode is not None:
             self.h5file.attrs["mode"] = mode
         if "mode" not in self.h5file.attrs:
             self.h5file.attrs["mode"] = self.mode_default
 
-        _dtypes = self.mode_dtype_dict[self.get_mode()]
-
         # Handle Datatype
-        if isinstance(datatype, str):
-            datatype = EnergyDType[datatype]
-        if isinstance(datatype, EnergyDType) and datatype not in _dtypes:
-            msg = f"Can't handle value '{datatype}' of datatype (choose one of {_dtypes})"
-            raise ValueError(msg)
-
         if isinstance(datatype, EnergyDType):
             self.h5file["data"].attrs["datatype"] = datatype.name
         if "datatype" not in self.h5file["data"].attrs:
             self.h5file["data"].attrs["datatype"] = self.datatype_default.name
-        if self.get_datatype() not in _dtypes:
-            msg = (
-                f"Can't handle value '{self.get_datatype()}' of datatype (choose one of {_dtypes})"
-            )
-            raise ValueError(msg)
 
         # Handle Window_samples
         if window_samples is not None:
@@ -185,9 +234,6 @@ class Writer(Reader):
         if "window_samples" not in self.h5file["data"].attrs:
             self.h5file["data"].attrs["window_samples"] = 0
 
-        if datatype == EnergyDType.ivcurve and self.get_window_samples() < 1:
-            raise ValueError("Window Size argument needed for ivcurve-Datatype")
-
         # Handle Cal
         if isinstance(cal_data, (CalEmu, CalHrv)):
             cal_data = CalSeries.from_cal(cal_data)
@@ -206,8 +252,6 @@ class Writer(Reader):
         settings = list(self.h5file.id.get_access_plist().get_cache())
         self._logger.debug("H5Py Cache_setting=%s (_mdc, _nslots, _nbytes, _w0)", settings)
 
-        super().__init__(file_path=None, verbose=verbose)
-
     def __enter__(self) -> Self:
         super().__enter__()
         return self
@@ -219,6 +263,13 @@ class Writer(Reader):
         tb: Optional[TracebackType] = None,
         extra_arg: int = 0,
     ) -> None:
+        try:
+            self._finalize()
+        finally:
+            self.h5file.close()
+
+    def _finalize(self) -> None:
+        """Bring file into its final state, right before closing."""
         self._align()
         self._refresh_file_stats()
         self._logger.info(
@@ -228,7 +279,6 @@ class Writer(Reader):
             self.data_rate / 2**10,
         )
         self.is_valid()
-        self.h5file.close()
 
     def _create_exclusively(self, file_path: Path) -> h5py.File:
         """Create a new file without ever touching one that appeared in the meantime."""
-- 
2.43.0


From 04f1563804e837de7ba59f1bfc404b5bebe31969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 05/80] fix: release the file when opening a reader fails

---
 shepherd_core/shepherd_core/reader.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 1f86f0d..3b00531 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -105,6 +105,16 @@ class Reader:
                 msg = f"Unable to open HDF5-File '{self.file_path.name}'"
                 raise TypeError(msg) from _xcp
 
+        try:
+            self._prepare(file_path)
+        except BaseException:
+            # a failed reader can't be closed from outside
+            if self._reader_opened:
+                self.h5file.close()
+            raise
+
+    def _prepare(self, file_path: Optional[Path]) -> None:
+        if self._reader_opened:
             if self.is_valid():
                 self._logger.debug("File is available now")
             else:
-- 
2.43.0


From df13a8f3fed9a9fdc961722e70c29f4c353c1de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 06/80] fix: exports appear under their final name only when
 complete

---
 shepherd_core/shepherd_core/file_safe.py | 28 ++++++++++++++++++++++++
 shepherd_core/shepherd_core/reader.py    |  7 ++++--
 shepherd_data/shepherd_data/cli.py       |  3 ++-
 shepherd_data/shepherd_data/ivonne.py    | 14 +++++++++---
 shepherd_data/shepherd_data/reader.py    | 20 ++++++++++++-----
 5 files changed, 60 insertions(+), 12 deletions(-)
 create mode 100644 shepherd_core/shepherd_core/file_safe.py

diff --git a/shepherd_core/shepherd_core/file_safe.py b/shepherd_core/shepherd_core/file_safe.py
new file mode 100644
index 0000000..443369a
--- /dev/null
+++ b/shepherd_core/shepherd_core/file_safe.py
@@ -0,0 +1,28 @@
+"""Helper for creating files that are either complete or not there at all."""
+
+import os
+from contextlib import contextmanager
+from contextlib import suppress
+from pathlib import Path
+from typing import Generator
+
+
+@contextmanager
+def replace_when_done(file_path: Path) -> Generator[Path, None, None]:
+    """Provide a temporary path that gets renamed to its final name after leaving the context.
+
+    If the content can't be completed (exception, full disk, killed process) the final path
+    stays as it was: missing or with its old content.
+
+    :param file_path: final path of the file
+    :return: path in same directory that has to be used for writing
+    """
+    file_path = Path(file_path).resolve()
+    tmp_path = file_path.with_name(f".{file_path.name}.{os.getpid()}.part")
+    try:
+        yield tmp_path
+        tmp_path.replace(file_path)
+    except BaseException:
+        with suppress(OSError):
+            tmp_path.unlink()
+        raise
diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 3b00531..aca4603 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -31,6 +31,7 @@ from .data_models.base.calibration import CalibrationPair
 from .data_models.base.calibration import CalibrationSeries
 from .data_models.content.energy_environment import EnergyDType
 from .decoder_waveform import Uart
+from .file_safe import replace_when_done
 
 if TYPE_CHECKING:
     from types import TracebackType
@@ -658,7 +659,9 @@ class Reader:
                 self._logger.info("File already exists, will skip '%s'", yaml_path.name)
                 return {}
             metadata = self.get_metadata(node)  # {"h5root": self.get_metadata(self.h5file)}
-            with yaml_path.open("w", encoding="utf-8-sig") as yfd:
+            with replace_when_done(yaml_path) as tmp_path, tmp_path.open(
+                "w", encoding="utf-8-sig"
+            ) as yfd:
                 yaml.safe_dump(metadata, yfd, default_flow_style=False, sort_keys=False)
         else:
             metadata = {}
@@ -715,7 +718,7 @@ class Reader:
         if path_csv.exists():
             self._logger.info("File already exists, will skip '%s'", path_csv.name)
             return
-        with path_csv.open("w") as csv:
+        with replace_when_done(path_csv) as tmp_path, tmp_path.open("w") as csv:
             csv.write(f"timestamp [s],{pin_name}\n")
             for row in pin_wf:
                 csv.write(f"{row[0] / 1e9}{separator}{int(row[1])}\n")
diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 166595e..2b89fec 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -13,6 +13,7 @@ import pydantic
 
 from shepherd_core import get_verbose_level
 from shepherd_core import local_tz
+from shepherd_core.file_safe import replace_when_done
 from shepherd_core.logger import set_log_verbose_level
 
 from . import __version__
@@ -234,7 +235,7 @@ def extract_uart(in_data: Path, *, recurse: bool = False) -> None:
                     logger.info("File already exists, will skip '%s'", log_path.name)
                     continue
 
-                with log_path.open("w") as log_file:
+                with replace_when_done(log_path) as tmp_path, tmp_path.open("w") as log_file:
                     for line in lines:
                         with suppress(TypeError):
                             timestamp = datetime.fromtimestamp(float(line[0]), tz=local_tz())
diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 0077623..3a3f83e 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -24,6 +24,8 @@ import pandas as pd
 from tqdm import trange
 from typing_extensions import Self
 
+from shepherd_core.file_safe import replace_when_done
+
 from . import Writer
 from .mppt import MPPTracker
 from .mppt import OptimalTracker
@@ -132,7 +134,9 @@ class Reader:
 
         v_proto = np.linspace(0, v_max, pts_per_curve)
 
-        with Writer(shp_output, datatype="ivcurve", window_samples=pts_per_curve) as sfw:
+        with replace_when_done(shp_output) as tmp_path, Writer(
+            tmp_path, datatype="ivcurve", window_samples=pts_per_curve, force_overwrite=True
+        ) as sfw:
             sfw.store_hostname("IVonne")
             curve_interval_us = round(sfw.sample_interval_ns * pts_per_curve / 1000)
             up_factor = self.sample_interval_ns // sfw.sample_interval_ns
@@ -207,7 +211,9 @@ class Reader:
                 v_max,
             )
 
-        with Writer(shp_output, datatype="ivsample") as sfw:
+        with replace_when_done(shp_output) as tmp_path, Writer(
+            tmp_path, datatype="ivsample", force_overwrite=True
+        ) as sfw:
             sfw.store_hostname("IVonne")
             interval_us = round(sfw.sample_interval_ns / 1000)
             up_factor = self.sample_interval_ns // sfw.sample_interval_ns
@@ -260,7 +266,9 @@ class Reader:
             self._logger.info("File already exists, will skip '%s'", shp_output.name)
             return
 
-        with Writer(shp_output, datatype="isc_voc") as sfw:
+        with replace_when_done(shp_output) as tmp_path, Writer(
+            tmp_path, datatype="isc_voc", force_overwrite=True
+        ) as sfw:
             sfw.store_hostname("IVonne")
             interval_us = round(sfw.sample_interval_ns / 1000)
             up_factor = self.sample_interval_ns // sfw.sample_interval_ns
diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 16e75e6..ddafa4a 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -18,6 +18,7 @@ from tqdm import trange
 from shepherd_core import Reader as CoreReader
 from shepherd_core import Writer as CoreWriter
 from shepherd_core import local_tz
+from shepherd_core.file_safe import replace_when_done
 from shepherd_core.logger import get_verbose_level
 from shepherd_core.logger import logger
 
@@ -69,7 +70,9 @@ class Reader(CoreReader):
             str(h5_group[key].attrs["description"]).replace(", ", separator) for key in datasets
         ]
         header: str = separator.join(header_elements)
-        with csv_path.open("w", encoding="utf-8-sig") as csv_file:
+        with replace_when_done(csv_path) as tmp_path, tmp_path.open(
+            "w", encoding="utf-8-sig"
+        ) as csv_file:
             self._logger.info("CSV-Generator will save '%s' to '%s'", h5_group.name, csv_path.name)
             csv_file.write(header + "\n")
             ts_gain = h5_group["time"].attrs.get("gain", 1e-9)
@@ -111,7 +114,9 @@ class Reader(CoreReader):
             return 0
         datasets = [key if isinstance(h5_group[key], h5py.Dataset) else [] for key in h5_group]
         datasets.remove("time")
-        with log_path.open("w", encoding="utf-8-sig") as log_file:
+        with replace_when_done(log_path) as tmp_path, tmp_path.open(
+            "w", encoding="utf-8-sig"
+        ) as log_file:
             self._logger.info("Log-Generator will save '%s' to '%s'", h5_group.name, log_path.name)
             for idx, time_ns in enumerate(h5_group["time"][:]):
                 if add_timestamp:
@@ -315,8 +320,9 @@ class Reader(CoreReader):
         )
 
         # convert data
-        with CoreWriter(
-            dst_file,
+        with replace_when_done(dst_file) as tmp_path, CoreWriter(
+            tmp_path,
+            force_overwrite=True,
             mode=self.get_mode(),
             datatype=self.get_datatype(),
             window_samples=self.get_window_samples(),
@@ -589,7 +595,8 @@ class Reader(CoreReader):
             return
         self._logger.info("Plot generated, will be saved to '%s'", plot_path.name)
         fig = self.assemble_plot(data, width, height, only_pwr=only_pwr)
-        plt.savefig(plot_path)
+        with replace_when_done(plot_path) as tmp_path:
+            plt.savefig(tmp_path, format="png")
         plt.close(fig)
         plt.clf()
 
@@ -620,7 +627,8 @@ class Reader(CoreReader):
             logger.warning("Plot exists, will skip & not overwrite!")
             return None
         fig = Reader.assemble_plot(data, width, height, only_pwr=only_pwr)
-        plt.savefig(plot_path)
+        with replace_when_done(plot_path) as tmp_path:
+            plt.savefig(tmp_path, format="png")
         plt.close(fig)
         plt.clf()
         return plot_path
-- 
2.43.0


From ce704830bacd69f6e33d6c3e53d4da0526acc7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 07/80] fix: csv-export no longer adds 1 to values of datasets
 without offset

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index ddafa4a..d44375c 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -81,7 +81,7 @@ class Reader(CoreReader):
                 key: h5_group[key].attrs.get("gain", 1.0) for key in datasets[1:]
             }
             offsets: Dict[str, float] = {
-                key: h5_group[key].attrs.get("offset", 1.0) for key in datasets[1:]
+                key: h5_group[key].attrs.get("offset", 0.0) for key in datasets[1:]
             }
             for idx, time_ns in enumerate(h5_group["time"][:]):
                 timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())
-- 
2.43.0


From a15a4dc790a1aa8c35d039f7b9be1975e77f1c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 08/80] fix: model-files get replaced atomically, an
 interrupted store can't truncate them

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 6745ea3..c904618 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -19,6 +19,7 @@ from yaml import Dumper
 from yaml import SafeDumper
 from yaml import ScalarNode
 
+from ...file_safe import replace_when_done
 from .timezone import local_now
 from .wrapper import Wrapper
 
@@ -118,7 +119,9 @@ class ShpModel(BaseModel):
         """Store schema to yaml (for frontend-generators)."""
         model_dict = cls.model_json_schema()
         model_yaml = yaml.safe_dump(model_dict, default_flow_style=False, sort_keys=False)
-        with Path(path).resolve().with_suffix(".yaml").open("w") as f:
+        with replace_when_done(Path(path).resolve().with_suffix(".yaml")) as tmp_path, tmp_path.open(
+            "w"
+        ) as f:
             f.write(model_yaml)
 
     def to_file(
@@ -149,7 +152,7 @@ class ShpModel(BaseModel):
         model_path = Path(path).resolve().with_suffix(".yaml")
         if not model_path.parent.exists():
             model_path.parent.mkdir(parents=True)
-        with model_path.open("w") as f:
+        with replace_when_done(model_path) as tmp_path, tmp_path.open("w") as f:
             f.write(model_yaml)
         return model_path
 
-- 
2.43.0


From fc710fada605dba9cda333bffa313e89ec96c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 09/80] fix: keep fractions of a second when storing durations
 to yaml

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 2 ++
 shepherd_core/shepherd_core/writer.py                    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index c904618..fed7f0e 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -33,6 +33,8 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
+    if data.microseconds:
+        return dumper.represent_float(data.total_seconds())
     return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
 
 
diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 7fcd576..4484f7e 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -42,6 +42,8 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
+    if data.microseconds:
+        return dumper.represent_float(data.total_seconds())
     return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
 
 
-- 
2.43.0


From b07c8e6b2a7eed8f74c53b8ba6f48cf53dc43462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 10/80] fix: time-check covers steps between internal slices
 and handles recordings of a single buffer

---
 shepherd_core/shepherd_core/reader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index aca4603..2cffc4e 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -540,19 +540,22 @@ class Reader:
 
         :return: list of (unique) time-deltas between buffers [s]
         """
-        iterations = math.ceil(self.ds_time.shape[0] / self.max_elements)
+        # slices have to start with a buffer
+        slice_len = max(1, self.max_elements // self.samples_per_buffer) * self.samples_per_buffer
+        iterations = math.ceil(self.ds_time.shape[0] / slice_len)
         job_iter = trange(
             0,
             self.h5file["data"]["time"].shape[0],
-            self.max_elements,
+            slice_len,
             desc="timediff",
             leave=False,
             disable=iterations < 8,
         )
 
         def calc_timediffs(idx_start: int) -> list:
+            # slice includes start of next one, to also cover the step in between
             ds_time = self.ds_time[
-                idx_start : (idx_start + self.max_elements) : self.samples_per_buffer
+                idx_start : (idx_start + slice_len + 1) : self.samples_per_buffer
             ]
             diffs_np = np.unique(ds_time[1:] - ds_time[0:-1], return_counts=False)
             return list(np.array(diffs_np))
@@ -577,6 +580,9 @@ class Reader:
             self._logger.warning(
                 "Time-jumps detected -> expected equal steps, but got: %s s", diffs
             )
+        if len(diffs) < 1:
+            # no steps to compare in recordings with less than two buffers
+            return True
         return (len(diffs) <= 1) and diffs[0] == round(0.1 / self.samples_per_buffer, 6)
 
     def count_errors_in_log(self, group_name: str = "sheep", min_level: int = 40) -> int:
-- 
2.43.0


From ed6c86082b21a7b55ae98d10f15abff3c5ebc232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 11/80] fix: batch-commands skip damaged recordings instead of
 aborting, validate counts them

---
 shepherd_data/shepherd_data/cli.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 2b89fec..c2a3ed7 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -89,8 +89,9 @@ def validate(in_data: Path, *, recurse: bool = False) -> None:
                 valid_dir &= valid_file
                 if not valid_file:
                     logger.error(" -> File '%s' was NOT valid", file.name)
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
+            valid_dir = False
     sys.exit(int(not valid_dir))
 
 
@@ -158,7 +159,7 @@ def extract(
                 out_file = shpr.cut_and_downsample_to_file(start, end, ds_factor=ds_factor)
                 with Reader(out_file, verbose=verbose_level > 2) as shpd:
                     shpd.save_csv(shpd["data"], separator, raw=raw)
-        except (TypeError, ValueError):
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -203,7 +204,7 @@ def extract_meta(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                         # TODO: allow omitting timestamp,
                         #       also test if segmented uart is correctly written
                         shpr.warn_logs(element, show=True)
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -244,7 +245,7 @@ def extract_uart(in_data: Path, *, recurse: bool = False) -> None:
                             log_file.write(f"\t{str.encode(line[1])}")
                             # TODO: does this produce "\tb'abc'"?
                             log_file.write("\n")
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -274,7 +275,7 @@ def extract_gpio(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                 wfs = shpr.gpio_to_waveforms()
                 for name, wf in wfs.items():
                     shpr.waveform_to_csv(name, wf, separator)
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -342,7 +343,7 @@ def downsample(
                 for _factor in ds_list:
                     path_file = shpr.cut_and_downsample_to_file(start, end, _factor)
                     logger.info("Created %s", path_file.name)
-        except (TypeError, ValueError):  # noqa: PERF203
+        except Exception:  # noqa: PERF203
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -421,7 +422,7 @@ def plot(
                     data.append(date)
                 else:
                     shpr.plot_to_file(start, end, width, height, only_pwr=only_power)
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
     if multiplot:
         logger.info("Got %d datasets to plot", len(data))
-- 
2.43.0


From de5eadc29a10d1e6440c60751e76b3dce8220acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 12/80] fix: derive downsample-factor from samplerate for each
 file individually

---
 shepherd_data/shepherd_data/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index c2a3ed7..221a200 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -332,11 +332,12 @@ def downsample(
     for file in files:
         try:
             with Reader(file, verbose=verbose_level > 2) as shpr:
+                _ds_factor = ds_factor  # not shared between files
                 if ds_factor is None and sample_rate is not None and sample_rate >= 1:
-                    ds_factor = shpr.samplerate_sps / sample_rate
+                    _ds_factor = shpr.samplerate_sps / sample_rate
 
-                if isinstance(ds_factor, (float, int)) and ds_factor >= 1:
-                    ds_list = [ds_factor]
+                if isinstance(_ds_factor, (float, int)) and _ds_factor >= 1:
+                    ds_list = [_ds_factor]
                 else:
                     ds_list = [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]
 
-- 
2.43.0


From c54877fd6bb4835c12f43dd8eb970911d2b4ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 13/80] fix: multiplot without any usable recording ends
 regularly

---
 shepherd_data/shepherd_data/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 221a200..e2dc93a 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -427,6 +427,8 @@ def plot(
             logger.exception("ERROR: Will skip file. It caused an exception.")
     if multiplot:
         logger.info("Got %d datasets to plot", len(data))
+        if len(data) < 1:
+            return
         mpl_path = Reader.multiplot_to_file(data, in_data, width, height, only_pwr=only_power)
         if mpl_path:
             logger.info("Plot generated and saved to '%s'", mpl_path.name)
-- 
2.43.0


From 641c82616d9b3c3c92e28bdc5cef99b514addfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 14/80] fix: down-sampling keeps every n-th element independent
 of internal slice-size

---
 shepherd_data/shepherd_data/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index d44375c..8c4af86 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -208,8 +208,9 @@ class Reader(CoreReader):
         if data_len == 0:
             self._logger.warning("downsampling failed because of data_len = 0")
             return data_dst
-        iblock_len = min(self.max_elements, data_len)
-        oblock_len = round(iblock_len / ds_factor)
+        # slices cover whole steps of the factor -> every n-th element, independent of slice-size
+        iblock_len = min(max(1, self.max_elements // ds_factor) * ds_factor, data_len)
+        oblock_len = iblock_len // ds_factor
         iterations = math.ceil(data_len / iblock_len)
         dest_len = math.floor(data_len / ds_factor)
         if data_dst is None:
-- 
2.43.0


From 14ea86f0444ae530734ac07393b3125554121bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 15/80] fix: statistics of datasets combine internal slices
 correctly

---
 shepherd_core/shepherd_core/reader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 2cffc4e..1df6120 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -515,7 +515,7 @@ class Reader:
         )
 
         def _calc_statistics(data: np.ndarray) -> list:
-            return [np.mean(data), np.min(data), np.max(data), np.std(data)]
+            return [np.mean(data), np.min(data), np.max(data), np.std(data), data.size]
 
         stats_list = [
             _calc_statistics(cal.raw_to_si(dset[i : i + self.max_elements])) for i in job_iter
@@ -523,12 +523,17 @@ class Reader:
         if len(stats_list) < 1:
             return {}
         stats_nd = np.stack(stats_list)
+        # slices can differ in size -> combine their moments weighted
+        mean = np.average(stats_nd[:, 0], weights=stats_nd[:, 4])
+        variance = np.average(
+            stats_nd[:, 3] ** 2 + (stats_nd[:, 0] - mean) ** 2, weights=stats_nd[:, 4]
+        )
         stats: Dict[str, float] = {
             # TODO: wrong calculation for ndim-datasets with n>1
-            "mean": float(stats_nd[:, 0].mean()),
+            "mean": float(mean),
             "min": float(stats_nd[:, 1].min()),
             "max": float(stats_nd[:, 2].max()),
-            "std": float(stats_nd[:, 3].mean()),  # TODO: sooo wrong :)
+            "std": float(np.sqrt(variance)),
             "si_converted": si_converted,
         }
         return stats
-- 
2.43.0


From d2e0732513319b7406c1b3e97e081c238b04d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 16/80] fix: fixtures-cache is only used when intact and made
 of the requested files, never stops the start

---
 .../shepherd_core/testbed_client/fixtures.py  | 82 +++++++++++++------
 1 file changed, 58 insertions(+), 24 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index a0ee6c1..0ce7a7a 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -1,12 +1,14 @@
 """Current implementation of a file-based database."""
 
 import copy
+import hashlib
 import pickle
 from datetime import datetime
 from datetime import timedelta
 from pathlib import Path
 from typing import Any
 from typing import Dict
+from typing import List
 from typing import Mapping
 from typing import Optional
 from typing import Union
@@ -18,7 +20,9 @@ from typing_extensions import Self
 from ..data_models.base.timezone import local_now
 from ..data_models.base.timezone import local_tz
 from ..data_models.base.wrapper import Wrapper
+from ..file_safe import replace_when_done
 from ..logger import logger
+from ..version import version
 from .cache_path import cache_user_path
 
 # Proposed field-name:
@@ -185,37 +189,67 @@ class Fixtures:
         cache_file = cache_user_path / "fixtures.pickle"
         sheep_detect = Path("/lib/firmware/am335x-pru0-fw").exists()
 
-        if (
-            not sheep_detect
-            and cache_file.exists()
-            and not file_older_than(cache_file, timedelta(hours=24))
-            and not reset
-        ):
-            # speedup by loading from cache
-            # TODO: also add version as criterion
-            with cache_file.open("rb", buffering=-1) as fd:
-                self.components = pickle.load(fd)  # noqa: S301
-            logger.debug(" -> found & used pickled fixtures")
+        if self.file_path.is_file():
+            files = [self.file_path]
+        elif self.file_path.is_dir():
+            files = list(
+                self.file_path.glob("**/*" + self.suffix)
+            )  # for py>=3.12: case_sensitive=False
+            logger.debug(" -> got %s %s-files", len(files), self.suffix)
         else:
-            if self.file_path.is_file():
-                files = [self.file_path]
-            elif self.file_path.is_dir():
-                files = list(
-                    self.file_path.glob("**/*" + self.suffix)
-                )  # for py>=3.12: case_sensitive=False
-                logger.debug(" -> got %s %s-files", len(files), self.suffix)
-            else:
-                raise ValueError("Path must either be file or directory (or empty)")
-
+            raise ValueError("Path must either be file or directory (or empty)")
+        source = self._get_fingerprint(files)
+
+        try:
+            if (
+                not sheep_detect
+                and cache_file.exists()
+                and not file_older_than(cache_file, timedelta(hours=24))
+                and not reset
+            ):
+                # speedup by loading from cache
+                self.components = self._load_cache(cache_file, source)
+                logger.debug(" -> found & used pickled fixtures")
+        except Exception as err:  # noqa: BLE001
+            # cache is only a shortcut, so whatever is wrong with it can't be critical
+            logger.debug(" -> ignored pickled fixtures (%s)", err)
+
+        if len(self.components) < 1:
             for file in files:
                 self.insert_file(file)
 
             if len(self.components) < 1:
                 logger.error(f"No fixture-components found at {self.file_path.as_posix()}")
             elif sheep_detect:
-                cache_file.parent.mkdir(parents=True, exist_ok=True)
-                with cache_file.open("wb", buffering=-1) as fd:
-                    pickle.dump(self.components, fd)
+                try:
+                    self._save_cache(cache_file, source)
+                except OSError as err:
+                    logger.warning(" -> failed to cache fixtures (%s)", err)
+
+    @staticmethod
+    def _get_fingerprint(files: List[Path]) -> bytes:
+        """Identify the content of the fixture-files, so the cache is only used for the same."""
+        fingerprint = hashlib.sha256(version.encode())
+        for file in files:
+            fingerprint.update(file.as_posix().encode() + b"\0")
+            fingerprint.update(hashlib.sha256(file.read_bytes()).digest())
+        return fingerprint.digest()
+
+    @staticmethod
+    def _load_cache(cache_file: Path, source: bytes) -> Dict[str, Fixture]:
+        with cache_file.open("rb", buffering=-1) as fd:
+            checksum, origin, data = fd.read(32), fd.read(32), fd.read()
+        if origin != source:
+            raise ValueError("cache is not based on requested files")
+        if checksum != hashlib.sha256(origin + data).digest():
+            raise ValueError("cache is damaged")
+        return pickle.loads(data)  # noqa: S301
+
+    def _save_cache(self, cache_file: Path, source: bytes) -> None:
+        cache_file.parent.mkdir(parents=True, exist_ok=True)
+        data = source + pickle.dumps(self.components)
+        with replace_when_done(cache_file) as tmp_path, tmp_path.open("wb", buffering=-1) as fd:
+            fd.write(hashlib.sha256(data).digest() + data)
 
     @validate_call
     def insert_file(self, file: Path) -> None:
-- 
2.43.0


From d9cd4ac1d6d42ccaa67f6090bb0648242b7ac6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 17/80] fix: database-entries can't be altered through queried
 or inserted values

---
 .../shepherd_core/testbed_client/fixtures.py     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index 0ce7a7a..7c6f144 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -54,7 +54,7 @@ class Fixture:
             return
         name = str(data.parameters["name"]).lower()
         _id = data.parameters["id"]
-        data = data.parameters
+        data = copy.deepcopy(data.parameters)
         self.elements_by_name[name] = data
         self.elements_by_id[_id] = data
         # update iterator
@@ -64,10 +64,10 @@ class Fixture:
         if isinstance(key, str):
             key = key.lower()
             if key in self.elements_by_name:
-                return self.elements_by_name[key]
+                return copy.deepcopy(self.elements_by_name[key])
             key = int(key) if key.isdigit() else None
         if key in self.elements_by_id:
-            return self.elements_by_id[int(key)]
+            return copy.deepcopy(self.elements_by_id[int(key)])
         msg = f"{self.model_type} '{key}' not found!"
         raise ValueError(msg)
 
@@ -78,7 +78,7 @@ class Fixture:
 
     def __next__(self) -> Any:
         if self._iter_index < len(self._iter_list):
-            member = self._iter_list[self._iter_index]
+            member = copy.deepcopy(self._iter_list[self._iter_index])
             self._iter_index += 1
             return member
         raise StopIteration
@@ -124,12 +124,12 @@ class Fixture:
         # TODO: cleanup and simplify - use fill_mode() and line up with web-interface
         elif "name" in values and values.get("name").lower() in self.elements_by_name:
             fixture_name = values.get("name").lower()
-            fixture_base = copy.copy(self.elements_by_name[fixture_name])
+            fixture_base = copy.deepcopy(self.elements_by_name[fixture_name])
             post_process = True
 
         elif values.get("id") in self.elements_by_id:
             _id = values["id"]
-            fixture_base = copy.copy(self.elements_by_id[_id])
+            fixture_base = copy.deepcopy(self.elements_by_id[_id])
             post_process = True
 
         if post_process:
@@ -156,13 +156,13 @@ class Fixture:
 
     def query_id(self, _id: int) -> dict:
         if isinstance(_id, int) and _id in self.elements_by_id:
-            return self.elements_by_id[_id]
+            return copy.deepcopy(self.elements_by_id[_id])
         msg = f"Initialization of {self.model_type} by ID failed - {_id} is unknown!"
         raise ValueError(msg)
 
     def query_name(self, name: str) -> dict:
         if isinstance(name, str) and name.lower() in self.elements_by_name:
-            return self.elements_by_name[name.lower()]
+            return copy.deepcopy(self.elements_by_name[name.lower()])
         msg = f"Initialization of {self.model_type} by name failed - {name} is unknown!"
         raise ValueError(msg)
 
-- 
2.43.0


From 76d9e419b5216ea6b00ae1f9be2d8ca3217a0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 18/80] fix: iterators of database-entries are independent from
 each other

---
 .../shepherd_core/testbed_client/fixtures.py  | 24 ++++---------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index 7c6f144..df49c0f 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -6,8 +6,8 @@ import pickle
 from datetime import datetime
 from datetime import timedelta
 from pathlib import Path
-from typing import Any
 from typing import Dict
+from typing import Iterator
 from typing import List
 from typing import Mapping
 from typing import Optional
@@ -15,7 +15,6 @@ from typing import Union
 
 import yaml
 from pydantic import validate_call
-from typing_extensions import Self
 
 from ..data_models.base.timezone import local_now
 from ..data_models.base.timezone import local_tz
@@ -40,9 +39,6 @@ class Fixture:
         self.model_type: str = model_type.lower()
         self.elements_by_name: Dict[str, dict] = {}
         self.elements_by_id: Dict[int, dict] = {}
-        # Iterator reset
-        self._iter_index: int = 0
-        self._iter_list: list = list(self.elements_by_name.values())
 
     def insert(self, data: Wrapper) -> None:
         # ⤷ TODO: could get easier
@@ -57,8 +53,6 @@ class Fixture:
         data = copy.deepcopy(data.parameters)
         self.elements_by_name[name] = data
         self.elements_by_id[_id] = data
-        # update iterator
-        self._iter_list: list = list(self.elements_by_name.values())
 
     def __getitem__(self, key: Union[str, int]) -> dict:
         if isinstance(key, str):
@@ -71,23 +65,15 @@ class Fixture:
         msg = f"{self.model_type} '{key}' not found!"
         raise ValueError(msg)
 
-    def __iter__(self) -> Self:
-        self._iter_index = 0
-        self._iter_list = list(self.elements_by_name.values())
-        return self
-
-    def __next__(self) -> Any:
-        if self._iter_index < len(self._iter_list):
-            member = copy.deepcopy(self._iter_list[self._iter_index])
-            self._iter_index += 1
-            return member
-        raise StopIteration
+    def __iter__(self) -> Iterator[dict]:
+        # each iterator has its own state -> nested & parallel usage is fine
+        return map(copy.deepcopy, list(self.elements_by_name.values()))
 
     def keys(self):  # noqa: ANN201
         return self.elements_by_name.keys()
 
     def refs(self) -> dict:
-        return {_i["id"]: _i["name"] for _i in self.elements_by_id.values()}
+        return {_i["id"]: _i["name"] for _i in list(self.elements_by_id.values())}
 
     def inheritance(self, values: dict, chain: Optional[list] = None) -> (dict, list):
         if chain is None:
-- 
2.43.0


From cc4a133377efee77c6c9f59087f72c5ebde8e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 19/80] fix: threads inserting entries of a new type don't lose
 them

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index df49c0f..145cadc 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -250,7 +250,8 @@ class Fixtures:
     def insert_model(self, data: Wrapper) -> None:
         fix_type = data.datatype.lower()
         if self.components.get(fix_type) is None:
-            self.components[fix_type] = Fixture(model_type=fix_type)
+            # ⤷ atomic, another thread could add the same type
+            self.components.setdefault(fix_type, Fixture(model_type=fix_type))
         self.components[fix_type].insert(data)
 
     def __getitem__(self, key: str) -> Fixture:
-- 
2.43.0


From 538a3e7e4e7aea56a0357bdbd895b3f43621f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 20/80] fix: database finds entries by UUID

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index 145cadc..d1f4d89 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -12,6 +12,7 @@ from typing import List
 from typing import Mapping
 from typing import Optional
 from typing import Union
+from uuid import UUID
 
 import yaml
 from pydantic import validate_call
@@ -54,14 +55,14 @@ class Fixture:
         self.elements_by_name[name] = data
         self.elements_by_id[_id] = data
 
-    def __getitem__(self, key: Union[str, int]) -> dict:
+    def __getitem__(self, key: Union[str, int, UUID]) -> dict:
         if isinstance(key, str):
             key = key.lower()
             if key in self.elements_by_name:
                 return copy.deepcopy(self.elements_by_name[key])
             key = int(key) if key.isdigit() else None
         if key in self.elements_by_id:
-            return copy.deepcopy(self.elements_by_id[int(key)])
+            return copy.deepcopy(self.elements_by_id[key])
         msg = f"{self.model_type} '{key}' not found!"
         raise ValueError(msg)
 
@@ -140,8 +141,8 @@ class Fixture:
             base[key] = value
         return base
 
-    def query_id(self, _id: int) -> dict:
-        if isinstance(_id, int) and _id in self.elements_by_id:
+    def query_id(self, _id: Union[int, UUID]) -> dict:
+        if isinstance(_id, (int, UUID)) and _id in self.elements_by_id:
             return copy.deepcopy(self.elements_by_id[_id])
         msg = f"Initialization of {self.model_type} by ID failed - {_id} is unknown!"
         raise ValueError(msg)
-- 
2.43.0


From ef3aa6cec817c8ef9da4fff1f9380e4f5748c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 21/80] fix: circular inheritance of database-entries gets
 refused

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index d1f4d89..c52f1e7 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -98,6 +98,9 @@ class Fixture:
                         msg,
                     )
                 chain.append(base_name)
+            if str(fixture_name).lower() in [str(_name).lower() for _name in chain]:
+                msg = f"Inheritance-Circle detected ({fixture_name} already in {chain})"
+                raise ValueError(msg)
             fixture_base = copy.copy(self[fixture_name])
             logger.debug("'%s' will inherit from '%s'", self.model_type, fixture_name)
             fixture_base["name"] = fixture_name
-- 
2.43.0


From 12100c80ba5abc99edfa1eb9e2565c9f5dd86d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 22/80] fix: all observers of a plan share one preparation-time
 and result-directory

---
 .../data_models/task/observer_tasks.py        | 24 ++++++++++++++-----
 .../data_models/task/testbed_tasks.py         |  3 ++-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/task/observer_tasks.py b/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
index 2fdf1db..d4f1a27 100644
--- a/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
+++ b/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
@@ -45,17 +45,29 @@ class ObserverTasks(ShpModel):
     #  - downsample
     #  - zip it
 
+    @staticmethod
+    def get_time_start(xp: Experiment) -> datetime:
+        """Determine common start-time, call once for all observers of an experiment."""
+        return (
+            xp.time_start
+            if isinstance(xp.time_start, datetime)
+            else datetime.now().astimezone() + timedelta(minutes=3)
+        )  # TODO: this is messed up, just a hotfix
+
     @classmethod
     @validate_call
-    def from_xp(cls, xp: Experiment, tb: Testbed, tgt_id: IdInt) -> Self:
+    def from_xp(
+        cls,
+        xp: Experiment,
+        tb: Testbed,
+        tgt_id: IdInt,
+        t_start: Optional[datetime] = None,
+    ) -> Self:
         if not tb.shared_storage:
             raise ValueError("Implementation currently relies on shared storage!")
 
-        t_start = (
-            xp.time_start
-            if isinstance(xp.time_start, datetime)
-            else datetime.now().astimezone() + timedelta(minutes=3)
-        )  # TODO: this is messed up, just a hotfix
+        if t_start is None:
+            t_start = cls.get_time_start(xp)
 
         obs = tb.get_observer(tgt_id)
         xp_dir = "experiments/" + xp.name + "_" + t_start.strftime("%Y-%m-%d_%H-%M-%S")
diff --git a/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py b/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py
index d8f62a6..fc2c093 100644
--- a/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py
+++ b/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py
@@ -36,7 +36,8 @@ class TestbedTasks(ShpModel):
             tb = Testbed()  # this will query the first (and only) entry of client
 
         tgt_ids = xp.get_target_ids()
-        obs_tasks = [ObserverTasks.from_xp(xp, tb, _id) for _id in tgt_ids]
+        t_start = ObserverTasks.get_time_start(xp)
+        obs_tasks = [ObserverTasks.from_xp(xp, tb, _id, t_start) for _id in tgt_ids]
         return cls(
             name=xp.name,
             observer_tasks=obs_tasks,
-- 
2.43.0


From 2f8c814d27d29e47ab197888ca3e8d06ca10de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 23/80] fix: partially delivered model-files get refused
 instead of loading an incomplete plan

---
 .../data_models/base/shepherd.py              |  7 ++---
 .../data_models/task/__init__.py              |  4 +--
 shepherd_core/shepherd_core/file_safe.py      | 27 +++++++++++++++++++
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index fed7f0e..2c88b61 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -19,7 +19,9 @@ from yaml import Dumper
 from yaml import SafeDumper
 from yaml import ScalarNode
 
+from ...file_safe import read_sealed
 from ...file_safe import replace_when_done
+from ...file_safe import seal_text
 from .timezone import local_now
 from .wrapper import Wrapper
 
@@ -155,14 +157,13 @@ class ShpModel(BaseModel):
         if not model_path.parent.exists():
             model_path.parent.mkdir(parents=True)
         with replace_when_done(model_path) as tmp_path, tmp_path.open("w") as f:
-            f.write(model_yaml)
+            f.write(seal_text(model_yaml))
         return model_path
 
     @classmethod
     def from_file(cls, path: Union[str, Path]) -> Self:
         """Load from yaml."""
-        with Path(path).open() as shp_file:
-            shp_dict = yaml.safe_load(shp_file)
+        shp_dict = yaml.safe_load(read_sealed(Path(path)))
         shp_wrap = Wrapper(**shp_dict)
         if shp_wrap.datatype != cls.__name__:
             raise ValueError("Model in file does not match the requirement")
diff --git a/shepherd_core/shepherd_core/data_models/task/__init__.py b/shepherd_core/shepherd_core/data_models/task/__init__.py
index c94c753..d8c536c 100644
--- a/shepherd_core/shepherd_core/data_models/task/__init__.py
+++ b/shepherd_core/shepherd_core/data_models/task/__init__.py
@@ -10,6 +10,7 @@ from typing import Union
 
 import yaml
 
+from ...file_safe import read_sealed
 from ...logger import logger
 from ..base.shepherd import ShpModel
 from ..base.wrapper import Wrapper
@@ -45,8 +46,7 @@ def prepare_task(config: Union[ShpModel, Path, str], observer: Optional[str] = N
         config = Path(config)
 
     if isinstance(config, Path):
-        with config.resolve().open() as shp_file:
-            shp_dict = yaml.safe_load(shp_file)
+        shp_dict = yaml.safe_load(read_sealed(config.resolve()))
         shp_wrap = Wrapper(**shp_dict)
     elif isinstance(config, ShpModel):
         shp_wrap = Wrapper(
diff --git a/shepherd_core/shepherd_core/file_safe.py b/shepherd_core/shepherd_core/file_safe.py
index 443369a..1a17e07 100644
--- a/shepherd_core/shepherd_core/file_safe.py
+++ b/shepherd_core/shepherd_core/file_safe.py
@@ -1,5 +1,6 @@
 """Helper for creating files that are either complete or not there at all."""
 
+import hashlib
 import os
 from contextlib import contextmanager
 from contextlib import suppress
@@ -26,3 +27,29 @@ def replace_when_done(file_path: Path) -> Generator[Path, None, None]:
         with suppress(OSError):
             tmp_path.unlink()
         raise
+
+
+SEAL_BEGIN = "# shepherd-file "
+SEAL_END = "# end of shepherd-file "
+
+
+def seal_text(text: str) -> str:
+    """Frame YAML-content with comments, so that a partial copy can be recognized later."""
+    seal = hashlib.sha3_224(text.encode("utf-8")).hexdigest()[:16]
+    return f"{SEAL_BEGIN}{seal}\n{text}{SEAL_END}{seal}\n"
+
+
+def read_sealed(file_path: Path) -> str:
+    """Read content of a file and refuse it if it was sealed but is not complete.
+
+    Files without a seal (i.e. handwritten) are accepted as they are, sealed ones can be edited.
+    """
+    with Path(file_path).open() as file:
+        text = file.read()
+    lines = text.rstrip().splitlines()
+    if len(lines) > 0 and lines[0].startswith(SEAL_BEGIN):
+        seal = lines[0][len(SEAL_BEGIN) :].strip()
+        if lines[-1].strip() != SEAL_END + seal:
+            msg = f"File is incomplete or mixed up with another ({file_path})"
+            raise ValueError(msg)
+    return text
-- 
2.43.0


From 941b51a3cacca4af4909839c19260207279fdf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 24/80] fix: preparation-time of an experiment with naive
 start-time keeps its instant on other machines

---
 .../shepherd_core/data_models/task/observer_tasks.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/task/observer_tasks.py b/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
index d4f1a27..0a65be8 100644
--- a/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
+++ b/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
@@ -48,11 +48,14 @@ class ObserverTasks(ShpModel):
     @staticmethod
     def get_time_start(xp: Experiment) -> datetime:
         """Determine common start-time, call once for all observers of an experiment."""
-        return (
+        t_start = (
             xp.time_start
             if isinstance(xp.time_start, datetime)
             else datetime.now().astimezone() + timedelta(minutes=3)
         )  # TODO: this is messed up, just a hotfix
+        if t_start.tzinfo is None:
+            t_start = t_start.astimezone()
+        return t_start
 
     @classmethod
     @validate_call
-- 
2.43.0


From 8421a7f2c5e269a19b212c0c260884839822bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 25/80] fix: constant-power target handles a disabled output

---
 shepherd_core/shepherd_core/vsource/target_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index e682071..5680d0c 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -122,6 +122,8 @@ class ConstantPowerTarget(TargetABC):
         self.P_sleep_fW = 1e15 * P_sleep_W
 
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
+        if voltage_uV <= 0:
+            return 0  # unpowered, i.e. disabled output
         return (self.P_active_fW if pwr_good else self.P_sleep_fW) / voltage_uV  # = nA
 
 
-- 
2.43.0


From 92ce7ac20f12182247b92bb4f9163efb1f158ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 26/80] fix: storage-capacitor without boost isn't charged by
 inputs below its voltage

---
 shepherd_core/shepherd_core/vsource/virtual_converter_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_converter_model.py b/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
index 8d0c1f5..1112a76 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
@@ -139,7 +139,7 @@ class VirtualConverterModel:
             # IF input==ivcurve request new CV
             if self.feedback_to_hrv:
                 self.V_input_request_uV = self.V_mid_uV + V_res_drop_uV + self._cfg.V_input_drop_uV
-            elif input_voltage_uV < self.V_mid_uV:
+            elif self.V_input_uV < self.V_mid_uV:
                 # without feedback there is no usable energy here
                 input_voltage_uV = 0
         else:
-- 
2.43.0


From f282493fc9f754b9efed801c0cff632ca716a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 27/80] fix: constant-voltage harvester follows the curve when
 two points are equally close

---
 shepherd_core/shepherd_core/vsource/virtual_harvester_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
index 41cf950..cc21217 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
@@ -121,7 +121,7 @@ class VirtualHarvesterModel:
                 self.current_delta = _current_nA - self.current_last
                 self.voltage_delta = _voltage_uV - self.voltage_last
                 # TODO: voltage_delta is static
-            elif distance_last < distance_now and distance_last < self.voltage_step_x4_uV:
+            elif distance_last <= distance_now and distance_last < self.voltage_step_x4_uV:
                 self.voltage_hold = self.voltage_last
                 self.current_hold = self.current_last
                 self.current_delta = _current_nA - self.current_last
-- 
2.43.0


From bcaa1c8065b7bd033f543514f75ce1cbeade80c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 28/80] fix: open-circuit harvester keeps its set-point above
 the lower voltage-limit

---
 shepherd_core/shepherd_core/vsource/virtual_harvester_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
index cc21217..e65ab76 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
@@ -173,6 +173,7 @@ class VirtualHarvesterModel:
             self.voltage_set_uV = self.voc_now
         elif self.interval_step == self._cfg.duration_n:
             self.voltage_set_uV = int(self.voc_now * self._cfg.setpoint_n8 / 256)
+            self.voltage_set_uV = max(self.voltage_set_uV, self._cfg.voltage_min_uV)
 
         return _voltage_uV, _current_nA
 
-- 
2.43.0


From 34d5310c75d06572ec66111469de4901a333e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 29/80] fix: simulations of source and harvester close their
 files when failing

---
 .../vsource/virtual_harvester_simulation.py     | 12 +++++++++++-
 .../vsource/virtual_source_simulation.py        | 17 ++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_harvester_simulation.py b/shepherd_core/shepherd_core/vsource/virtual_harvester_simulation.py
index 33c336d..4c3e63d 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_harvester_simulation.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_harvester_simulation.py
@@ -28,7 +28,17 @@ def simulate_harvester(
 
     Fn return the harvested energy.
     """
-    stack = ExitStack()
+    # files get closed (and the output finalized) even if the simulation fails
+    with ExitStack() as stack:
+        return _simulate_harvester(stack, config, path_input, path_output)
+
+
+def _simulate_harvester(
+    stack: ExitStack,
+    config: VirtualHarvesterConfig,
+    path_input: Path,
+    path_output: Optional[Path],
+) -> float:
     file_inp = Reader(path_input, verbose=False)
     stack.enter_context(file_inp)
     cal_inp = file_inp.get_calibration_data()
diff --git a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
index f014de8..4e768b3 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
@@ -35,7 +35,22 @@ def simulate_source(
 
     FN returns the consumed energy of the target.
     """
-    stack = ExitStack()
+    # files get closed (and the output finalized) even if the simulation fails
+    with ExitStack() as stack:
+        return _simulate_source(
+            stack, config, target, path_input, path_output, monitor_internals=monitor_internals
+        )
+
+
+def _simulate_source(
+    stack: ExitStack,
+    config: VirtualSourceConfig,
+    target: TargetABC,
+    path_input: Path,
+    path_output: Optional[Path],
+    *,
+    monitor_internals: bool,
+) -> float:
     file_inp = Reader(path_input, verbose=False)
     stack.enter_context(file_inp)
     cal_emu = CalibrationEmulator()
-- 
2.43.0


From b97bfa044aff0d05322259caa1796fad74de6b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 30/80] fix: monitoring of source-simulation has room for every
 sample

---
 .../shepherd_core/vsource/virtual_source_simulation.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
index 4e768b3..72696e0 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
@@ -77,7 +77,7 @@ def _simulate_source(
     e_out_Ws = 0.0
     if monitor_internals and path_output:
         stats_sample = 0
-        stats_internal = np.empty((round(file_inp.runtime_s * file_inp.samplerate_sps), 11))
+        stats_internal = np.empty((file_inp.buffers_n * file_inp.samples_per_buffer, 11))
         try:
             # keep dependencies low
             from matplotlib import pyplot as plt
-- 
2.43.0


From 89050c35979f731d29a4591742a3b583608cd38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 31/80] fix: reader determines voltage-step of ivcurve in
 volts, also for descending sweeps

---
 shepherd_core/shepherd_core/reader.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 1df6120..cf961b7 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -299,13 +299,14 @@ class Reader:
             self.get_config().get("virtual_harvester", {}).get("voltage_step_mV", None)
         )
         if voltage_step is None:
-            dsv = self.ds_voltage[0:2000]
-            diffs_np = np.unique(dsv[1:] - dsv[0:-1], return_counts=False)
-            diffs_ls = [_e for _e in list(np.array(diffs_np)) if _e > 0]
+            dsv = self.ds_voltage[0:2000].astype("int64")  # unsigned would wrap around
+            diffs_np = np.abs(dsv[1:] - dsv[0:-1])
+            diffs_np, counts = np.unique(diffs_np[diffs_np > 0], return_counts=True)
             # static voltages have 0 steps, so
-            if len(diffs_ls) == 0:
+            if len(diffs_np) == 0:
                 return None  # or is 0 better? that may provoke div0
-            voltage_step = min(diffs_ls)
+            # raw-value -> mV
+            voltage_step = 1e3 * float(diffs_np[counts.argmax()]) * self._cal.voltage.gain
         if voltage_step is not None:
             voltage_step = 1e-3 * voltage_step
         return voltage_step
-- 
2.43.0


From 5b0af38b661d2734b1468d73a9d40f507fcf1bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 32/80] fix: extrapolating harvester never returns a negative
 current

---
 .../shepherd_core/vsource/virtual_harvester_model.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
index e65ab76..587b73a 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
@@ -129,8 +129,8 @@ class VirtualHarvesterModel:
         elif self.lin_extrapolation:
             # apply the proper delta if needed
             if (self.voltage_hold < self.voltage_set_uV) == (self.voltage_delta > 0):
-                self.voltage_hold += self.voltage_delta
-                self.current_hold += self.current_delta
+                self.voltage_hold = max(0, self.voltage_hold + self.voltage_delta)
+                self.current_hold = max(0, self.current_hold + self.current_delta)
             else:
                 if self.voltage_hold > self.voltage_delta:
                     self.voltage_hold -= self.voltage_delta
-- 
2.43.0


From b8cdad0739a0dc3ae01f75af400022cda21745a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 33/80] fix: uart-decoder doesn't modify the array it is given

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index c463ea1..a11b58b 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -72,7 +72,7 @@ class Uart:
             # TODO: if float fails load as str -
             #  cast first col as np.datetime64 with ns-resolution, convert to delta
         else:
-            self.events_sig = content
+            self.events_sig = content.copy()  # gets modified below
 
         # verify table
         if self.events_sig.shape[1] != 2:
-- 
2.43.0


From b12be531dcb696592ccd4740741f6ce16faff6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 34/80] fix: uart-decoder keeps symbols after a bare CR and
 text without line-ending

---
 .../shepherd_core/decoder_waveform/uart.py    | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index a11b58b..f4779fc 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -266,22 +266,24 @@ class Uart:
         t_start = None
         line = ""
         for time, symbol in self.events_symbols:
-            if symbol == "\n" or semi_stop:
-                if symbol == "\n":
-                    line += symbol
+            if semi_stop and symbol != "\n":
+                # previous symbol (\r) was already the end of its line
                 content.append((t_start, line))
-                semi_stop = False
                 t_start = None
                 line = ""
-                if not semi_stop:
-                    continue
-            if symbol == "\r":
-                semi_stop = True
+            semi_stop = symbol == "\r"
 
             if t_start is None:
                 t_start = time
             line += symbol
-        self.events_lines = np.concatenate(content).reshape((len(content), 2))
+            if symbol == "\n":
+                content.append((t_start, line))
+                t_start = None
+                line = ""
+        if len(line) > 0:
+            # rest without line-ending
+            content.append((t_start, line))
+        self.events_lines = np.array(content, dtype=object).reshape((len(content), 2))
         return self.events_lines
 
     def get_text(self, *, force_redo: bool = False) -> str:
-- 
2.43.0


From aeb460f321f4843eb0b13009ce9be9650e42be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 35/80] fix: uart-decoder returns timestamps as numbers and
 handles traces without symbols

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index f4779fc..946a04a 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -246,10 +246,8 @@ class Uart:
                     pos_df = None
                     if off_tick and value == 0:
                         logger.debug("Error - Off-sized step - but SigLow (@%d)", time)
-        self.events_symbols = np.concatenate(content).reshape((len(content), 2))
-        # TODO: numpy is converting timestamp to string -> must be added as tuple (ts, symbol)
-        # symbol_events[:, 0] = symbol_events[:, 0].astype(float)  # noqa: ERA001
-        # ⤷ does not work
+        # dtype keeps timestamp a number & NUL in symbols
+        self.events_symbols = np.array(content, dtype=object).reshape((len(content), 2))
         return self.events_symbols
 
     def get_lines(self, *, force_redo: bool = False) -> np.ndarray:
-- 
2.43.0


From 7084e0bb360943d8661c4781e539814fbfacb07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 36/80] fix: uart-decoder recognizes NUL and the most
 significant bit of symbols

---
 .../shepherd_core/decoder_waveform/uart.py      | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index 946a04a..55351b1 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -218,13 +218,17 @@ class Uart:
                 if value:
                     # long pause on High -> reset frame
                     if pos_df is not None:
+                        # unfinished bits of frame are part of the pause
+                        symbol += (2 ** (self.frame_length - pos_df) - 1) << pos_df
                         content.append([t_start, chr(symbol)])
                         t_start = None
                         symbol = 0
                     pos_df = None
-                else:
+                    continue
+                if pos_df is not None or round(steps) > self.frame_length + 1:
+                    # valid low-phase is max one frame of zeros with start-bit
                     logger.debug("Error - Long pause - but SigLow (@%d)", time)
-                continue
+                    continue
             if pos_df is None and value == 0:
                 # Start of frame (first low after pause / EOF)
                 pos_df = 0
@@ -232,9 +236,8 @@ class Uart:
                 t_start = time
             if pos_df is not None:
                 if round(steps) >= 1 and value:
-                    chunk = min(steps, self.frame_length - pos_df - 1)
-                    lshift = min(pos_df, self.frame_length - 1)
-                    symbol += (2 ** round(chunk) - 1) << lshift
+                    chunk = min(steps, self.frame_length - pos_df)
+                    symbol += (2 ** round(chunk) - 1) << pos_df
                 pos_df += round(steps)
                 off_tick = abs(steps - round(steps)) > 0.1
                 if pos_df >= self.frame_length or (off_tick and value):
@@ -246,6 +249,10 @@ class Uart:
                     pos_df = None
                     if off_tick and value == 0:
                         logger.debug("Error - Off-sized step - but SigLow (@%d)", time)
+        if pos_df is not None and value == 0:
+            # line is idle (HIGH) after last event -> includes unfinished bits
+            symbol += (2 ** (self.frame_length - pos_df) - 1) << pos_df
+            content.append((t_start, chr(symbol)))
         # dtype keeps timestamp a number & NUL in symbols
         self.events_symbols = np.array(content, dtype=object).reshape((len(content), 2))
         return self.events_symbols
-- 
2.43.0


From 62a48b020a47b4a976b280677e1baada199e4e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 37/80] fix: decoding uart from gpio-trace keeps resolution of
 timestamps

---
 shepherd_core/shepherd_core/reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index cf961b7..02ffc61 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -745,11 +745,14 @@ class Reader:
         if write_to_file:
             self.waveform_to_csv(pin_name, pin_wf)
 
-        gpio_wf = pin_wf.astype(float)
-        gpio_wf[:, 0] = gpio_wf[:, 0] / 1e9
+        # decode with relative time, as float can't resolve ns of an absolute timestamp
+        ts_start = pin_wf[0, 0] if len(pin_wf) > 0 else 0
+        gpio_wf = np.column_stack(((pin_wf[:, 0] - ts_start) / 1e9, pin_wf[:, 1].astype(float)))
 
         try:
-            return Uart(gpio_wf).get_lines()
+            lines = Uart(gpio_wf).get_lines()
+            lines[:, 0] += float(ts_start / 1e9)
+            return lines
         except TypeError:
             self._logger.error("TypeError: Extracting UART from GPIO failed - will skip file.")
             return None
-- 
2.43.0


From c22c0c7fd6ef153f47eb4febc2eef92c58e1eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 38/80] fix: reader copes with empty gpio-traces

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 02ffc61..dd1a152 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -697,6 +697,8 @@ class Reader:
         """
         if len(data.shape) > 1:
             raise ValueError("Array must be 1D")
+        if len(data) == 0:
+            return np.zeros(0, dtype=bool)
         data_1 = np.concatenate(([not data[0]], data[:-1]))
         return data != data_1
 
-- 
2.43.0


From a041ae8720eb639e7ebaca74c73a6088097a86c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 39/80] fix: reader prefers gpio-pin with exactly the requested
 name

---
 shepherd_core/shepherd_core/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index dd1a152..d1ecad5 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -684,6 +684,9 @@ class Reader:
         if "gpio" not in self.h5file:
             return None
         descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
+        for desc_name, desc in descriptions.items():
+            if name == desc["name"]:
+                return int(desc_name)
         for desc_name, desc in descriptions.items():
             if name in desc["name"]:
                 return int(desc_name)
-- 
2.43.0


From 7298d0eadff7e72511efdc3fe2c9a5207cbc6794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 40/80] fix: reader returns no waveform for unknown gpio-pins

---
 shepherd_core/shepherd_core/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index d1ecad5..7b0c21f 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -715,9 +715,12 @@ class Reader:
 
         if name is None:
             descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
-            pin_dict = {value["name"]: key for key, value in descriptions.items()}
+            pin_dict = {value["name"]: int(key) for key, value in descriptions.items()}
         else:
             pin_dict = {name: self.get_gpio_pin_num(name)}
+            if pin_dict[name] is None:
+                self._logger.warning("GPIO '%s' not found", name)
+                return waveforms
 
         for pin_name, pin_num in pin_dict.items():
             gpio_ps = (gpio_vs[:] & (0b1 << pin_num)) > 0
-- 
2.43.0


From daf3d70299319cf91606da80b6812fb47b221fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 41/80] fix: export of gpio-waveforms keeps ns-resolution of
 timestamps

---
 shepherd_core/shepherd_core/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 7b0c21f..53b45f3 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -741,7 +741,8 @@ class Reader:
         with replace_when_done(path_csv) as tmp_path, tmp_path.open("w") as csv:
             csv.write(f"timestamp [s],{pin_name}\n")
             for row in pin_wf:
-                csv.write(f"{row[0] / 1e9}{separator}{int(row[1])}\n")
+                ts_s, ts_ns = divmod(int(row[0]), 10**9)
+                csv.write(f"{ts_s}.{ts_ns:09d}{separator}{int(row[1])}\n")
 
     def gpio_to_uart(self) -> Optional[np.ndarray]:
         wfs = self.gpio_to_waveforms("uart")
-- 
2.43.0


From 4060f941998b776aa48852b79d79ddef4ff34ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 42/80] fix: web-client is only used by the library if its
 connection succeeded

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index a86d391..925cb6a 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -33,7 +33,6 @@ class WebClient(AbcClient):
         server: optional address to shepherd-server-endpoint
         token: your account validation. if omitted, only public data is available
         """
-        super().__init__()
         if not hasattr(self, "_token"):
             # add default values
             self._token: str = "basic_public_access"  # noqa: S105
@@ -45,6 +44,8 @@ class WebClient(AbcClient):
 
         if not self._connected:
             self._connect(server, token)
+        # only replaces the current client of the library if connection succeeded
+        super().__init__()
 
     # ABC Functions below
 
-- 
2.43.0


From 9a4192600ed1fa1653f55ad06bb270edc5771373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 43/80] fix: web-client uses the provided token as is

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index 925cb6a..499b19f 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -91,9 +91,9 @@ class WebClient(AbcClient):
             if not token.exists():
                 raise FileNotFoundError("Token-Path does not exist")
             with token.resolve().open() as file:
-                self._token = file.read()
+                self._token = file.read().strip()
         elif isinstance(token, str):
-            self._token = self._token
+            self._token = token
 
         if isinstance(server, str):
             self._server = server.lower()
@@ -115,7 +115,7 @@ class WebClient(AbcClient):
 
     def _query_user_data(self) -> bool:
         if self._server:
-            r = self._req.get(self._server + "/user?token=" + self._token, timeout=2)
+            r = self._req.get(self._server + "/user", params={"token": self._token}, timeout=2)
             # TODO: possibly a security nightmare (send via json or encrypted via public key?)
             r.raise_for_status()
             self._user = User(**r.json())
-- 
2.43.0


From bbbf511dbd1e762f95143c4ffe3f4dae2c8d6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 44/80] fix: web-client keeps case of server-address

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index 499b19f..55be6b6 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -96,7 +96,7 @@ class WebClient(AbcClient):
             self._token = token
 
         if isinstance(server, str):
-            self._server = server.lower()
+            self._server = server
 
         self._req = import_module("requests")  # here due to slow startup
 
-- 
2.43.0


From 75215528969c636c3f6bfd29ed514573f8ccdf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 45/80] fix: web-client only confirms what the server confirmed

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index 55be6b6..6ef14e8 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -56,6 +56,8 @@ class WebClient(AbcClient):
         )
         r = self._req.post(self._server + "/add", data=wrap.model_dump_json(), timeout=2)
         r.raise_for_status()
+        if r.request.method != "POST":
+            raise ConnectionError("Server redirected, so data was not transmitted")
         return True
 
     def query_ids(self, model_type: str) -> List[int]:
@@ -110,6 +112,8 @@ class WebClient(AbcClient):
             r = self._req.get(self._server + "/session_key", timeout=2)
             r.raise_for_status()
             self._key = r.json()["value"]  # TODO: not finished
+            if self._key is None:
+                raise ValueError("Server did not provide a session-key")
             return True
         return False
 
-- 
2.43.0


From 049f76e8728ddc78f1dabceb90f18ad38a83b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 46/80] fix: damaged embedded firmware is refused with a
 ValueError

zstd's own error type escaped, so a model with damaged content could
not be told apart from a crash.
---
 shepherd_core/shepherd_core/fw_tools/converter.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/converter.py b/shepherd_core/shepherd_core/fw_tools/converter.py
index 07c8a87..65a6671 100644
--- a/shepherd_core/shepherd_core/fw_tools/converter.py
+++ b/shepherd_core/shepherd_core/fw_tools/converter.py
@@ -45,6 +45,15 @@ def file_to_base64(file_path: Path) -> str:
     return base64.b64encode(file_cmpress).decode("ascii")
 
 
+def _decode_content(content: str) -> bytes:
+    """Decode and decompress content, damaged data always results in a ValueError."""
+    file_cmpress = base64.b64decode(content)
+    try:
+        return zstd.ZstdDecompressor().decompress(file_cmpress)
+    except zstd.ZstdError as err:
+        raise ValueError("Content can not be decompressed") from err
+
+
 @validate_call
 def base64_to_file(content: str, file_path: Path) -> None:
     """DeCompress and decode Content of file.
@@ -52,8 +61,7 @@ def base64_to_file(content: str, file_path: Path) -> None:
     - base64 adds ~33 % overhead
     - zstd compression reduces to ~ 1:3
     """
-    file_cmpress = base64.b64decode(content)
-    file_content = zstd.ZstdDecompressor().decompress(file_cmpress)
+    file_content = _decode_content(content)
     if not file_path.parent.exists():
         file_path.parent.mkdir(parents=True)
     with file_path.resolve().open("wb") as file:
@@ -73,8 +81,7 @@ def file_to_hash(file_path: Path) -> str:
 @validate_call
 def base64_to_hash(content: str) -> str:
     """Convert base64-content to hash-value."""
-    file_cmpress = base64.b64decode(content)
-    file_content = zstd.ZstdDecompressor().decompress(file_cmpress)
+    file_content = _decode_content(content)
     return hashlib.sha3_224(file_content).hexdigest()
 
 
-- 
2.43.0


From e46ba4c1d869f1df68ef7c9863adc9178711cdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 47/80] fix: extracting a firmware leaves either the complete
 file or none

A full disk or a killed process left a truncated image that would be
flashed to the target.
---
 shepherd_core/shepherd_core/fw_tools/converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/converter.py b/shepherd_core/shepherd_core/fw_tools/converter.py
index 65a6671..5b27b1e 100644
--- a/shepherd_core/shepherd_core/fw_tools/converter.py
+++ b/shepherd_core/shepherd_core/fw_tools/converter.py
@@ -10,6 +10,7 @@ import zstandard as zstd
 from pydantic import validate_call
 
 from ..data_models.content.firmware_datatype import FirmwareDType
+from ..file_safe import replace_when_done
 from .converter_elf import elf_to_hex
 from .validation import is_elf
 from .validation import is_hex
@@ -64,7 +65,7 @@ def base64_to_file(content: str, file_path: Path) -> None:
     file_content = _decode_content(content)
     if not file_path.parent.exists():
         file_path.parent.mkdir(parents=True)
-    with file_path.resolve().open("wb") as file:
+    with replace_when_done(file_path) as tmp_path, tmp_path.open("wb") as file:
         file.write(file_content)
 
 
@@ -107,7 +108,8 @@ def extract_firmware(data: Union[str, Path], data_type: FirmwareDType, file_path
             raise ValueError("FW-Extraction failed due to unknown datatype '%s'", data_type)
         if not file.parent.exists():
             file.parent.mkdir(parents=True)
-        shutil.copy(data, file)
+        with replace_when_done(file) as tmp_path:
+            shutil.copy(data, tmp_path)
     else:
         raise ValueError("FW-Extraction failed due to unknown data-type '%s'", type(data))
     return file
-- 
2.43.0


From 37c0fef25964705a4008f82f0dbff7fdd2b1cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 48/80] fix: patching the ID never leaves a truncated ELF
 behind

With overwrite=True the only copy of the firmware was destroyed when
the disk ran full.
---
 shepherd_core/shepherd_core/fw_tools/patcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/patcher.py b/shepherd_core/shepherd_core/fw_tools/patcher.py
index 946c359..7f25242 100644
--- a/shepherd_core/shepherd_core/fw_tools/patcher.py
+++ b/shepherd_core/shepherd_core/fw_tools/patcher.py
@@ -9,6 +9,7 @@ from typing_extensions import Annotated
 
 from ..commons import uid_len_default
 from ..commons import uid_str_default
+from ..file_safe import replace_when_done
 from ..logger import logger
 from .validation import is_elf
 
@@ -119,7 +120,8 @@ def modify_symbol_value(
     else:
         file_new = file_elf.with_name(file_elf.stem + "_" + str(value) + file_elf.suffix)
         # could be simplified, but py3.8-- doesn't know .with_stem()
-    elf.save(path=file_new)
+    with replace_when_done(file_new) as tmp_path:
+        elf.save(path=tmp_path)
     elf.close()
     logger.debug(
         "Value of Symbol '%s' modified: %s -> %s @%s",
-- 
2.43.0


From 3d451cec6b11adde22a8648e04d14c02fc05119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 49/80] fix: hex-conversion with a failing objcopy leaves no
 partial hex behind

---
 shepherd_core/shepherd_core/fw_tools/converter_elf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/converter_elf.py b/shepherd_core/shepherd_core/fw_tools/converter_elf.py
index e87fb10..c5fbb63 100644
--- a/shepherd_core/shepherd_core/fw_tools/converter_elf.py
+++ b/shepherd_core/shepherd_core/fw_tools/converter_elf.py
@@ -6,6 +6,8 @@ from typing import Optional
 
 from pydantic import validate_call
 
+from ..file_safe import replace_when_done
+
 # extra src-file necessary to prevent circular import
 
 
@@ -16,11 +18,14 @@ def elf_to_hex(file_elf: Path, file_hex: Optional[Path] = None) -> Path:
         raise ValueError("Fn needs an existing file as input")
     if not file_hex:
         file_hex = file_elf.resolve().with_suffix(".hex")
-    cmd = ["objcopy", "-O", "ihex", file_elf.resolve().as_posix(), file_hex.as_posix()]
     # TODO: observe - maybe $ARCH-Versions of objcopy are needed
     #  (hex of nRF / msp identical between the 3 $arch-versions)
     try:
-        subprocess.run(cmd, check=True)  # noqa: S603
+        with replace_when_done(file_hex) as tmp_path:
+            cmd = ["objcopy", "-O", "ihex", file_elf.resolve().as_posix(), tmp_path.as_posix()]
+            subprocess.run(cmd, check=True)  # noqa: S603
+            if not tmp_path.is_file():
+                raise RuntimeError("Objcopy produced no output")
     except FileNotFoundError as err:
         raise RuntimeError(
             "Objcopy not found -> are binutils or build-essential installed?"
-- 
2.43.0


From 0a7914b5a7126fe07690401279b9ba0f3458f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 50/80] fix: Firmware.compare_hash() handles referenced files

The path was decoded as if it were base64, which also broke
FirmwareModTask.from_firmware() for not embedded firmwares.
---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 765569f..b713317 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -147,6 +147,9 @@ class Firmware(ContentModel, title="Firmware of Target"):
         if path is not None and path.is_file():
             hash_new = fw_tools.file_to_hash(path)
             match = self.data_hash == hash_new
+        elif self.data_type in {FirmwareDType.path_hex, FirmwareDType.path_elf}:
+            hash_new = fw_tools.file_to_hash(Path(self.data))
+            match = self.data_hash == hash_new
         else:
             hash_new = fw_tools.base64_to_hash(self.data)
             match = self.data_hash == hash_new
-- 
2.43.0


From cf62a8dae72e70e9581bebc723c3c6842a22a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 51/80] fix: firmwares with a dot in their name don't overwrite
 each other

'fw 1.2' and 'fw 1.3' were both extracted to 'fw 1.hex'.
---
 .../shepherd_core/data_models/content/firmware.py     | 11 ++++++++++-
 .../shepherd_core/data_models/task/firmware_mod.py    |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index b713317..bbd994f 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -159,6 +159,15 @@ class Firmware(ContentModel, title="Firmware of Target"):
             # TODO: it might be more appropriate to raise here
         return match
 
+    def get_file_name(self) -> str:
+        """Name for the extracted file, its suffix will be exchanged by one matching the content.
+
+        Only firmware-suffixes can be exchanged, any other dot is part of the name ("fw 1.2").
+        """
+        if Path(self.name).suffix.lower() in {"", *suffix_to_DType}:
+            return self.name
+        return self.name + ".fw"
+
     @validate_call
     def extract_firmware(self, file: Path) -> Path:
         """Store embedded fw-data in file.
@@ -167,7 +176,7 @@ class Firmware(ContentModel, title="Firmware of Target"):
         - if provided path is a directory, the firmware-name is used
         """
         if file.is_dir():
-            file = file / self.name
+            file = file / self.get_file_name()
         file_new = fw_tools.extract_firmware(self.data, self.data_type, file)
         self.compare_hash(file_new)
         return file_new
diff --git a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
index 735a28d..0b9cc64 100644
--- a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
+++ b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
@@ -87,6 +87,6 @@ class FirmwareModTask(ShpModel):
         fw.compare_hash()
         path = kwargs.get("firmware_file")
         if path is not None and path.is_dir():
-            path_new: Path = path / fw.name
+            path_new: Path = path / fw.get_file_name()
             kwargs["firmware_file"] = path_new.with_suffix(".hex")
         return cls(**kwargs)
-- 
2.43.0


From 0facd1c11fd9e1a174b7fa153966b698514eb10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 52/80] fix: replaced files keep their permissions

---
 shepherd_core/shepherd_core/file_safe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/file_safe.py b/shepherd_core/shepherd_core/file_safe.py
index 1a17e07..95b1aed 100644
--- a/shepherd_core/shepherd_core/file_safe.py
+++ b/shepherd_core/shepherd_core/file_safe.py
@@ -2,6 +2,7 @@
 
 import hashlib
 import os
+import shutil
 from contextlib import contextmanager
 from contextlib import suppress
 from pathlib import Path
@@ -22,6 +23,8 @@ def replace_when_done(file_path: Path) -> Generator[Path, None, None]:
     tmp_path = file_path.with_name(f".{file_path.name}.{os.getpid()}.part")
     try:
         yield tmp_path
+        if file_path.is_file():
+            shutil.copymode(file_path, tmp_path)
         tmp_path.replace(file_path)
     except BaseException:
         with suppress(OSError):
-- 
2.43.0


From e3052a34b941e1765c75052afb7fbf0ac06ff499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 53/80] fix: inventory can be taken shortly after boot, with
 unset clock and without psutil

An uptime of zero (also the fallback without psutil) or below was
refused by the model.
---
 shepherd_core/shepherd_core/inventory/system.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index 0ac1997..fa32e2a 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -19,7 +19,7 @@ except ImportError:
     psutil = None
 
 from pydantic import ConfigDict
-from pydantic.types import PositiveInt
+from pydantic.types import NonNegativeInt
 
 from ..data_models import ShpModel
 
@@ -27,7 +27,7 @@ from ..data_models import ShpModel
 class SystemInventory(ShpModel):
     """System / OS related inventory model."""
 
-    uptime: PositiveInt
+    uptime: NonNegativeInt
     # ⤷ seconds
     timestamp: datetime
     # time_delta: timedelta = timedelta(0)  # noqa: ERA001
@@ -69,7 +69,8 @@ class SystemInventory(ShpModel):
         else:
             ifs1 = psutil.net_if_addrs().items()
             ifs2 = {name: (_if[1].address, _if[0].address) for name, _if in ifs1 if len(_if) > 1}
-            uptime = time.time() - psutil.boot_time()
+            uptime = max(0, time.time() - psutil.boot_time())
+            # ⤷ clock could have been set back after boot
 
         fs_cmd = ["/usr/bin/df", "-h", "/"]
         fs_out = []
-- 
2.43.0


From 79fcbf43ab8d57fdcb30d7888f9d2546cb1e2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 54/80] fix: inventory reports ip and mac of interfaces by
 address-family

On Linux the two were swapped and an IPv6-address took the place of
the mac.
---
 shepherd_core/shepherd_core/inventory/system.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index fa32e2a..b7630a6 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -1,12 +1,14 @@
 """System / OS related inventory model."""
 
 import platform
+import socket
 import subprocess
 import time
 from datetime import datetime
 from pathlib import Path
 from typing import List
 from typing import Optional
+from typing import Tuple
 
 from typing_extensions import Self
 
@@ -54,6 +56,15 @@ class SystemInventory(ShpModel):
 
     model_config = ConfigDict(str_min_length=0)
 
+    @staticmethod
+    def _get_ip_and_mac(addresses: list) -> Tuple[str, str]:
+        """Choose by address-family, as the order and number of addresses varies."""
+        ip, mac = "", ""
+        for family in (socket.AF_INET6, socket.AF_INET):
+            ip = next((_a.address for _a in addresses if _a.family == family), ip)
+        mac = next((_a.address for _a in addresses if _a.family == psutil.AF_LINK), mac)
+        return ip, mac
+
     @classmethod
     def collect(cls) -> Self:
         ts = local_now()
@@ -68,7 +79,7 @@ class SystemInventory(ShpModel):
             )
         else:
             ifs1 = psutil.net_if_addrs().items()
-            ifs2 = {name: (_if[1].address, _if[0].address) for name, _if in ifs1 if len(_if) > 1}
+            ifs2 = {name: cls._get_ip_and_mac(_if) for name, _if in ifs1 if len(_if) > 1}
             uptime = max(0, time.time() - psutil.boot_time())
             # ⤷ clock could have been set back after boot
 
-- 
2.43.0


From 76aad40c2268cc2e7b2e476ac839f960ce8f5f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 55/80] fix: hanging or refused helper-programs don't prevent
 an inventory

---
 .../shepherd_core/inventory/system.py         | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index b7630a6..a01efde 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -65,6 +65,19 @@ class SystemInventory(ShpModel):
         mac = next((_a.address for _a in addresses if _a.family == psutil.AF_LINK), mac)
         return ip, mac
 
+    @staticmethod
+    def _query(cmd: List[str]) -> Optional[subprocess.CompletedProcess]:
+        """Run a helper-program, its absence or failure is no reason to have no inventory."""
+        if not Path(cmd[0]).is_file():
+            return None
+        try:
+            return subprocess.run(  # noqa: S603
+                cmd, timeout=30, capture_output=True, check=False
+            )
+        except (OSError, subprocess.SubprocessError) as err:
+            logger.warning("Inventory-Parameter will be missing, '%s' failed: %s", cmd[0], err)
+            return None
+
     @classmethod
     def collect(cls) -> Self:
         ts = local_now()
@@ -85,26 +98,20 @@ class SystemInventory(ShpModel):
 
         fs_cmd = ["/usr/bin/df", "-h", "/"]
         fs_out = []
-        if Path(fs_cmd[0]).is_file():
-            reply = subprocess.run(  # noqa: S603
-                fs_cmd, timeout=30, capture_output=True, check=False
-            )
+        reply = cls._query(fs_cmd)
+        if reply is not None:
             fs_out = str(reply.stdout).split(r"\n")
 
         beagle_cmd = ["/usr/bin/beagle-version"]
         beagle_out = []
-        if Path(beagle_cmd[0]).is_file():
-            reply = subprocess.run(  # noqa: S603
-                beagle_cmd, timeout=30, capture_output=True, check=False
-            )
+        reply = cls._query(beagle_cmd)
+        if reply is not None:
             beagle_out = str(reply.stdout).split(r"\n")
 
         ptp_cmd = ["/usr/sbin/ptp4l", "-v"]
         ptp_out = None
-        if Path(ptp_cmd[0]).is_file():
-            reply = subprocess.run(  # noqa: S603
-                ptp_cmd, timeout=30, capture_output=True, check=False
-            )
+        reply = cls._query(ptp_cmd)
+        if reply is not None:
             ptp_out = f"{reply.stdout}, {reply.stderr}"
             # alternative: check_output - seems to be lighter
 
-- 
2.43.0


From 67bb49b56d60afa92ce1192e09290cdb55db3ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 56/80] fix: a package without version doesn't prevent an
 inventory

---
 shepherd_core/shepherd_core/inventory/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/inventory/python.py b/shepherd_core/shepherd_core/inventory/python.py
index 1e9059f..e1c6f0b 100644
--- a/shepherd_core/shepherd_core/inventory/python.py
+++ b/shepherd_core/shepherd_core/inventory/python.py
@@ -40,7 +40,7 @@ class PythonInventory(ShpModel):
         ]
 
         for module_name in module_names:
-            with suppress(ImportError):
+            with suppress(ImportError, AttributeError):
                 module = import_module(module_name)
                 model_dict[module_name] = module.__version__
                 globals()
-- 
2.43.0


From 6b0c37fb97ed5135d42d562212662415fb1e8ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 57/80] fix: comparing inventories of several hosts works

InventoryList has no hostname, lists can't be dictionary-keys, packages
can be missing everywhere and hosts can share a name - each of these
ended the comparison or hid a mismatch.
---
 .../shepherd_core/inventory/__init__.py       | 42 +++++++++----------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/__init__.py b/shepherd_core/shepherd_core/inventory/__init__.py
index 20e2fe9..aedf785 100644
--- a/shepherd_core/shepherd_core/inventory/__init__.py
+++ b/shepherd_core/shepherd_core/inventory/__init__.py
@@ -76,27 +76,19 @@ class InventoryList(ShpModel):
     def warn(self) -> dict:
         warnings = {}
         ts_earl = min([_e.created.timestamp() for _e in self.elements])
-        for _e in self.elements:
-            if _e.uptime > timedelta(hours=30).total_seconds():
-                warnings["uptime"] = f"[{self.hostname}] restart is recommended"
-            if (_e.created.timestamp() - ts_earl) > 10:
-                warnings["time_delta"] = f"[{self.hostname}] time-sync has failed"
-
-        # turn  Dict[hostname][type] = val
-        # to    Dict[type][val] = List[hostnames]
-        _inp = {
-            _e.hostname: _e.model_dump(exclude_unset=True, exclude_defaults=True)
+        h_uptime = [
+            _e.hostname
             for _e in self.elements
-        }
-        result = {}
-        for _host, _types in _inp.items():
-            for _type, _val in _types.items():
-                if _type not in result:
-                    result[_type] = {}
-                if _val not in result[_type]:
-                    result[_type][_val] = []
-                result[_type][_val].append(_host)
-        rescnt = {_key: len(_val) for _key, _val in result.items()}
+            if _e.uptime > timedelta(hours=30).total_seconds()
+        ]
+        if len(h_uptime) > 0:
+            warnings["uptime"] = f"[{', '.join(h_uptime)}] restart is recommended"
+        h_delta = [
+            _e.hostname for _e in self.elements if (_e.created.timestamp() - ts_earl) > 10
+        ]
+        if len(h_delta) > 0:
+            warnings["time_delta"] = f"[{', '.join(h_delta)}] time-sync has failed"
+
         t_unique = [
             "h5py",
             "numpy",
@@ -108,8 +100,14 @@ class InventoryList(ShpModel):
             "zstandard",
         ]
         for _key in t_unique:
-            if rescnt[_key] > 1:
-                warnings[_key] = f"[{_key}] VersionMismatch - {result[_key]}"
+            # Dict[val] = List[hostnames]
+            result = {}
+            for _e in self.elements:
+                _val = getattr(_e, _key)
+                if _val is not None:
+                    result.setdefault(_val, []).append(_e.hostname)
+            if len(result) > 1:
+                warnings[_key] = f"[{_key}] VersionMismatch - {result}"
 
         # TODO: finish with more potential warnings
         return warnings
-- 
2.43.0


From 98784b3f51a76bdadaff2942cb716bbf98473998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 58/80] fix: csv of inventories has one row per host with all
 fields

Lists and dicts contain the separator, so columns got mixed up. A
directory as target no longer overwrites inventory.yaml in there.
---
 shepherd_core/shepherd_core/inventory/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/__init__.py b/shepherd_core/shepherd_core/inventory/__init__.py
index aedf785..2b5ec65 100644
--- a/shepherd_core/shepherd_core/inventory/__init__.py
+++ b/shepherd_core/shepherd_core/inventory/__init__.py
@@ -6,6 +6,7 @@ This will collect:
 - hardware-config.
 """
 
+import csv
 from datetime import datetime
 from datetime import timedelta
 from pathlib import Path
@@ -16,6 +17,7 @@ from typing_extensions import Annotated
 from typing_extensions import Self
 
 from ..data_models import ShpModel
+from ..file_safe import replace_when_done
 from .python import PythonInventory
 from .system import SystemInventory
 from .target import TargetInventory
@@ -65,13 +67,13 @@ class InventoryList(ShpModel):
         np.concatenate(content).reshape((len(content), len(content[0]))).
         """
         if path.is_dir():
-            path = path / "inventory.yaml"
-        with path.resolve().open("w") as fd:
-            fd.write(", ".join(self.elements[0].model_dump().keys()) + "\r\n")
+            path = path / "inventory.csv"
+        with replace_when_done(path) as tmp_path, tmp_path.open("w", newline="") as fd:
+            csv_writer = csv.writer(fd)
+            csv_writer.writerow(self.elements[0].model_dump().keys())
             for item in self.elements:
                 content = list(item.model_dump().values())
-                content = ["" if value is None else str(value) for value in content]
-                fd.write(", ".join(content) + "\r\n")
+                csv_writer.writerow("" if value is None else str(value) for value in content)
 
     def warn(self) -> dict:
         warnings = {}
-- 
2.43.0


From 00f159e96d52d855fb35d6ce4371a373261c3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 59/80] fix: local timezone has the offset in force

In zones with daylight-saving the summer-time was used all year.
---
 .../shepherd_core/data_models/base/timezone.py     | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/timezone.py b/shepherd_core/shepherd_core/data_models/base/timezone.py
index 69ff3b5..639cb83 100644
--- a/shepherd_core/shepherd_core/data_models/base/timezone.py
+++ b/shepherd_core/shepherd_core/data_models/base/timezone.py
@@ -1,21 +1,19 @@
 """Helper-functions for better support of timezones."""
 
-import time
 from datetime import datetime
-from datetime import timedelta
 from datetime import timezone
+from datetime import tzinfo
 
 
-def local_tz() -> timezone:
-    """Query the local timezone of the user."""
-    if time.daylight:
-        return timezone(timedelta(seconds=-time.altzone), time.tzname[1])
-    return timezone(timedelta(seconds=-time.timezone), time.tzname[0])
+def local_tz() -> tzinfo:
+    """Query the local timezone of the user with the offset that is currently in force."""
+    return local_now().tzinfo
 
 
 def local_now() -> datetime:
     """Query the local date-time of the user."""
-    return datetime.now(tz=local_tz())
+    # a single query of the clock, so the offset fits to the date
+    return datetime.now(tz=timezone.utc).astimezone()
 
 
 def local_iso_date() -> str:
-- 
2.43.0


From 66071f99d314e390c3d08bac723af790773fa1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 60/80] fix: exported timestamps use the offset in force at the
 recorded instant

Logs that were recorded in another season were off by an hour.
---
 shepherd_core/shepherd_core/__init__.py                |  2 ++
 .../shepherd_core/data_models/base/timezone.py         |  5 +++++
 shepherd_data/shepherd_data/cli.py                     |  5 ++---
 shepherd_data/shepherd_data/reader.py                  | 10 ++++------
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/shepherd_core/shepherd_core/__init__.py b/shepherd_core/shepherd_core/__init__.py
index dce4cca..08ddedc 100644
--- a/shepherd_core/shepherd_core/__init__.py
+++ b/shepherd_core/shepherd_core/__init__.py
@@ -11,6 +11,7 @@ from .data_models.base.calibration import CalibrationEmulator
 from .data_models.base.calibration import CalibrationHarvester
 from .data_models.base.calibration import CalibrationPair
 from .data_models.base.calibration import CalibrationSeries
+from .data_models.base.timezone import local_from_timestamp
 from .data_models.base.timezone import local_now
 from .data_models.base.timezone import local_tz
 from .data_models.task.emulation import Compression
@@ -39,6 +40,7 @@ __all__ = [
     "Writer",
     "get_verbose_level",
     "increase_verbose_level",
+    "local_from_timestamp",
     "local_now",
     "local_tz",
     "logger",
diff --git a/shepherd_core/shepherd_core/data_models/base/timezone.py b/shepherd_core/shepherd_core/data_models/base/timezone.py
index 639cb83..c502940 100644
--- a/shepherd_core/shepherd_core/data_models/base/timezone.py
+++ b/shepherd_core/shepherd_core/data_models/base/timezone.py
@@ -16,6 +16,11 @@ def local_now() -> datetime:
     return datetime.now(tz=timezone.utc).astimezone()
 
 
+def local_from_timestamp(timestamp: float) -> datetime:
+    """Convert timestamp to date-time of the user, with the offset in force at that instant."""
+    return datetime.fromtimestamp(timestamp, tz=timezone.utc).astimezone()
+
+
 def local_iso_date() -> str:
     """Query the local date-time of the user as a ISO 8601 date."""
     return local_now().date().isoformat()
diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index e2dc93a..ab4683c 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -3,7 +3,6 @@
 import logging
 import sys
 from contextlib import suppress
-from datetime import datetime
 from pathlib import Path
 from typing import List
 from typing import Optional
@@ -12,7 +11,7 @@ import click
 import pydantic
 
 from shepherd_core import get_verbose_level
-from shepherd_core import local_tz
+from shepherd_core import local_from_timestamp
 from shepherd_core.file_safe import replace_when_done
 from shepherd_core.logger import set_log_verbose_level
 
@@ -239,7 +238,7 @@ def extract_uart(in_data: Path, *, recurse: bool = False) -> None:
                 with replace_when_done(log_path) as tmp_path, tmp_path.open("w") as log_file:
                     for line in lines:
                         with suppress(TypeError):
-                            timestamp = datetime.fromtimestamp(float(line[0]), tz=local_tz())
+                            timestamp = local_from_timestamp(float(line[0]))
                             log_file.write(timestamp.strftime("%Y-%m-%d %H:%M:%S.%f") + ":")
                             # TODO: allow to skip Timestamp and export raw text
                             log_file.write(f"\t{str.encode(line[1])}")
diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 8c4af86..077082d 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -1,7 +1,6 @@
 """Reader-Baseclass for opening shepherds hdf5-files."""
 
 import math
-from datetime import datetime
 from pathlib import Path
 from typing import Dict
 from typing import List
@@ -17,7 +16,7 @@ from tqdm import trange
 
 from shepherd_core import Reader as CoreReader
 from shepherd_core import Writer as CoreWriter
-from shepherd_core import local_tz
+from shepherd_core import local_from_timestamp
 from shepherd_core.file_safe import replace_when_done
 from shepherd_core.logger import get_verbose_level
 from shepherd_core.logger import logger
@@ -84,7 +83,7 @@ class Reader(CoreReader):
                 key: h5_group[key].attrs.get("offset", 0.0) for key in datasets[1:]
             }
             for idx, time_ns in enumerate(h5_group["time"][:]):
-                timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())
+                timestamp = local_from_timestamp(time_ns * ts_gain)
                 csv_file.write(timestamp.strftime("%Y-%m-%d %H:%M:%S.%f"))
                 for key in datasets[1:]:
                     values = h5_group[key][idx]
@@ -120,8 +119,7 @@ class Reader(CoreReader):
             self._logger.info("Log-Generator will save '%s' to '%s'", h5_group.name, log_path.name)
             for idx, time_ns in enumerate(h5_group["time"][:]):
                 if add_timestamp:
-                    timestamp = datetime.fromtimestamp(time_ns / 1e9, local_tz())
-                    # ⤷ TODO: these .fromtimestamp would benefit from included TZ
+                    timestamp = local_from_timestamp(time_ns / 1e9)
                     log_file.write(timestamp.strftime("%Y-%m-%d %H:%M:%S.%f") + ":")
                 for key in datasets:
                     try:
@@ -158,7 +156,7 @@ class Reader(CoreReader):
             if _level < min_level:
                 continue
             _msg = self.h5file[group_name]["message"][idx]
-            _timestamp = datetime.fromtimestamp(time_ns / 1e9, local_tz())
+            _timestamp = local_from_timestamp(time_ns / 1e9)
             if _level < 30:
                 self._logger.info("    %s: %s", _timestamp, _msg)
             elif _level < 40:
-- 
2.43.0


From 54c0490bbcbab8998fe3be788814c73cd674ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 61/80] fix: tasks accept a date as start-time

---
 shepherd_core/shepherd_core/data_models/task/emulation.py | 4 ++++
 shepherd_core/shepherd_core/data_models/task/harvest.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/task/emulation.py b/shepherd_core/shepherd_core/data_models/task/emulation.py
index 579bd44..33d86d5 100644
--- a/shepherd_core/shepherd_core/data_models/task/emulation.py
+++ b/shepherd_core/shepherd_core/data_models/task/emulation.py
@@ -2,6 +2,7 @@
 
 import copy
 from datetime import datetime
+from datetime import time
 from datetime import timedelta
 from enum import Enum
 from pathlib import Path
@@ -104,6 +105,9 @@ class EmulationTask(ShpModel):
             values["time_start"] = datetime.fromtimestamp(values["time_start"], tz=local_tz())
         if has_time and isinstance(values["time_start"], str):
             values["time_start"] = datetime.fromisoformat(values["time_start"])
+        if has_time and not isinstance(values["time_start"], datetime):
+            # YAML turns a plain date into this type
+            values["time_start"] = datetime.combine(values["time_start"], time.min)
         if has_time and values["time_start"].tzinfo is None:
             values["time_start"] = values["time_start"].astimezone()
         return values
diff --git a/shepherd_core/shepherd_core/data_models/task/harvest.py b/shepherd_core/shepherd_core/data_models/task/harvest.py
index 1cf1610..493aed8 100644
--- a/shepherd_core/shepherd_core/data_models/task/harvest.py
+++ b/shepherd_core/shepherd_core/data_models/task/harvest.py
@@ -1,6 +1,7 @@
 """Config for the Observer in Harvest-Mode to record IV data from a harvesting-source."""
 
 from datetime import datetime
+from datetime import time
 from datetime import timedelta
 from pathlib import Path
 from typing import Optional
@@ -63,6 +64,9 @@ class HarvestTask(ShpModel):
             values["time_start"] = datetime.fromtimestamp(values["time_start"], tz=local_tz())
         if has_time and isinstance(values["time_start"], str):
             values["time_start"] = datetime.fromisoformat(values["time_start"])
+        if has_time and not isinstance(values["time_start"], datetime):
+            # YAML turns a plain date into this type
+            values["time_start"] = datetime.combine(values["time_start"], time.min)
         if has_time and values["time_start"].tzinfo is None:
             values["time_start"] = values["time_start"].astimezone()
         return values
-- 
2.43.0


From 92ff5e46a683c7aa3884c37a42fd47b8bf84213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 62/80] fix: size-limit of msp430-firmware counts its content

IntelHex.get_memory_size() is the footprint of the python-object, so
valid firmwares above ~5 kB were refused.
---
 shepherd_core/shepherd_core/fw_tools/validation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index 088a1b5..3766de9 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -58,7 +58,8 @@ def is_hex_msp430(file: Path) -> bool:
             return False
 
         # conservative test for now - should be well below 128 kB + 8kB for msp430fr5962
-        return ih.get_memory_size() <= 270_000
+        # note: .get_memory_size() is the footprint of the python-object, ~30x of the content
+        return len(ih) <= 270_000
     return False
 
 
-- 
2.43.0


From 5cc7e68b6bc06bdafda4f5ee3f034424d31f8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 63/80] fix: a damaged log-level doesn't prevent a recording
 from being opened

The constructor counts errors in the log, so the intact samples and
other logs were out of reach.
---
 shepherd_core/shepherd_core/reader.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 53b45f3..dbec3d8 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -596,12 +596,24 @@ class Reader:
             return 0
         if "level" not in self.h5file[group_name]:
             return 0
-        _lvl = self.h5file[group_name]["level"]
-        if _lvl.shape[0] < 1:
-            return 0
-        _items = [1 for _x in _lvl[:] if _x >= min_level]
+        _lvl = self.read_elements(self.h5file[group_name]["level"])
+        _items = [1 for _x in _lvl if _x is not None and _x >= min_level]
         return len(_items)
 
+    def read_elements(self, dataset: h5py.Dataset) -> list:
+        """Read all elements of a dataset, the ones that are damaged become None."""
+        try:
+            return list(dataset[:])
+        except OSError:
+            self._logger.error("Dataset '%s' is damaged, will read single elements", dataset.name)
+        elements: list = []
+        for idx in range(dataset.shape[0]):
+            try:
+                elements.append(dataset[idx])
+            except OSError:  # noqa: PERF203
+                elements.append(None)
+        return elements
+
     def get_metadata(
         self,
         node: Union[h5py.Dataset, h5py.Group, None] = None,
-- 
2.43.0


From 34e5fa6d3b46de329879b1747bd29797c29f8367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 64/80] fix: metadata can be queried when a log is damaged or
 has a scalar

---
 shepherd_core/shepherd_core/reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index dbec3d8..a5d7190 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -643,8 +643,11 @@ class Reader:
                 metadata["_dataset_info"]["time_diffs_s"] = self._data_timediffs()
                 # TODO: already convert to str to calm the typechecker?
                 #  or construct a pydantic-class
-            elif "int" in str(node.dtype):
-                metadata["_dataset_info"]["statistics"] = self._dset_statistics(node)
+            elif "int" in str(node.dtype) and len(node.shape) > 0:
+                try:
+                    metadata["_dataset_info"]["statistics"] = self._dset_statistics(node)
+                except OSError:
+                    self._logger.error("Dataset '%s' is damaged, no statistics", node.name)
                 # TODO: put this into metadata["_dataset_statistics"] ??
         for attr in node.attrs:
             attr_value = node.attrs[attr]
-- 
2.43.0


From 2889242a852a11b6f6315958e753dc9b111215f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 65/80] fix: log-groups with sub-groups or scalars can be
 exported

---
 shepherd_data/shepherd_data/reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 077082d..cedd39b 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -111,7 +111,11 @@ class Reader(CoreReader):
         if log_path.exists():
             self._logger.info("File already exists, will skip '%s'", log_path.name)
             return 0
-        datasets = [key if isinstance(h5_group[key], h5py.Dataset) else [] for key in h5_group]
+        datasets = [
+            key
+            for key in h5_group
+            if isinstance(h5_group[key], h5py.Dataset) and len(h5_group[key].shape) > 0
+        ]
         datasets.remove("time")
         with replace_when_done(log_path) as tmp_path, tmp_path.open(
             "w", encoding="utf-8-sig"
-- 
2.43.0


From 664763f6ef0742aa1db7c68dcb842fc01761565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 66/80] fix: log-export continues after unreadable timestamps
 and missing elements

Only OSErrors of single elements were handled, but a damaged time or
a column that wasn't extended before the recorder died ended it.
---
 shepherd_data/shepherd_data/reader.py | 29 +++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index cedd39b..953d641 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -24,6 +24,9 @@ from shepherd_core.logger import logger
 # import samplerate  # noqa: ERA001, TODO: just a test-fn for now
 
 
+LOG_FAULTY: str = "[[[ extractor - faulty element ]]]"
+
+
 class Reader(CoreReader):
     """Sequentially Reads shepherd-data from HDF5 file.
 
@@ -95,6 +98,20 @@ class Reader(CoreReader):
                 csv_file.write("\n")
         return h5_group["time"][:].shape[0]
 
+    @staticmethod
+    def _log_element(dataset: h5py.Dataset, idx: int) -> str:
+        """Query entry of a log, other columns can be damaged or shorter than the time."""
+        try:
+            return str(dataset[idx])
+        except (OSError, ValueError, IndexError):
+            return LOG_FAULTY
+
+    @staticmethod
+    def _log_timestamp(time_ns: Optional[int], fmt: str) -> str:
+        if time_ns is None:
+            return LOG_FAULTY
+        return local_from_timestamp(time_ns / 1e9).strftime(fmt)
+
     def save_log(self, h5_group: h5py.Group, *, add_timestamp: bool = True) -> int:
         """Save dataset from group as log, optimal for logged 'dmesg' and console-output.
 
@@ -121,16 +138,12 @@ class Reader(CoreReader):
             "w", encoding="utf-8-sig"
         ) as log_file:
             self._logger.info("Log-Generator will save '%s' to '%s'", h5_group.name, log_path.name)
-            for idx, time_ns in enumerate(h5_group["time"][:]):
+            for idx, time_ns in enumerate(self.read_elements(h5_group["time"])):
                 if add_timestamp:
-                    timestamp = local_from_timestamp(time_ns / 1e9)
-                    log_file.write(timestamp.strftime("%Y-%m-%d %H:%M:%S.%f") + ":")
+                    timestamp = self._log_timestamp(time_ns, "%Y-%m-%d %H:%M:%S.%f")
+                    log_file.write(timestamp + ":")
                 for key in datasets:
-                    try:
-                        message = str(h5_group[key][idx])
-                    except OSError:
-                        message = "[[[ extractor - faulty element ]]]"
-                    log_file.write(f"\t{message}")
+                    log_file.write(f"\t{self._log_element(h5_group[key], idx)}")
                 log_file.write("\n")
         return h5_group["time"].shape[0]
 
-- 
2.43.0


From 247774743f7037006abf08014b4487135785dc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 67/80] fix: warnings from a damaged log are listed as far as
 readable

---
 shepherd_data/shepherd_data/reader.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 953d641..273186a 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -168,12 +168,16 @@ class Reader(CoreReader):
             min_level,
             limit,
         )
-        for idx, time_ns in enumerate(self.h5file[group_name]["time"][:]):
-            _level = self.h5file[group_name]["level"][idx]
-            if _level < min_level:
+        _group = self.h5file[group_name]
+        for _level, (idx, time_ns) in zip(
+            self.read_elements(_group["level"]), enumerate(self.read_elements(_group["time"]))
+        ):
+            if limit < 1:
+                break
+            if _level is None or _level < min_level:
                 continue
-            _msg = self.h5file[group_name]["message"][idx]
-            _timestamp = local_from_timestamp(time_ns / 1e9)
+            _msg = self._log_element(_group["message"], idx) if "message" in _group else ""
+            _timestamp = LOG_FAULTY if time_ns is None else local_from_timestamp(time_ns / 1e9)
             if _level < 30:
                 self._logger.info("    %s: %s", _timestamp, _msg)
             elif _level < 40:
@@ -181,8 +185,6 @@ class Reader(CoreReader):
             else:
                 self._logger.error("    %s: %s", _timestamp, _msg)
             limit -= 1
-            if limit < 1:
-                break
         return _count
 
     def downsample(
-- 
2.43.0


From fd6849503fb54db75c7ec576550af7343cc849f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 68/80] fix: a damaged element doesn't prevent the extraction
 of the others

extract-meta gave up on the whole file.
---
 shepherd_data/shepherd_data/cli.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index ab4683c..71f8147 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -2,8 +2,10 @@
 
 import logging
 import sys
+from contextlib import contextmanager
 from contextlib import suppress
 from pathlib import Path
+from typing import Generator
 from typing import List
 from typing import Optional
 
@@ -162,6 +164,15 @@ def extract(
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
+@contextmanager
+def log_exception(element: str) -> Generator[None, None, None]:
+    """Allow extracting the next element of a file after one failed."""
+    try:
+        yield
+    except Exception:
+        logger.exception("ERROR: Will skip '%s' in file. It caused an exception.", element)
+
+
 @cli.command(
     short_help="Extracts metadata and logs from file or directory containing shepherd-recordings"
 )
@@ -189,20 +200,23 @@ def extract_meta(in_data: Path, separator: str, *, recurse: bool = False) -> Non
         # TODO: could also be combined with other extractors (just have one)
         try:
             with Reader(file, verbose=verbose_level > 2) as shpr:
-                shpr.save_metadata()
+                with log_exception("metadata"):
+                    shpr.save_metadata()
                 csvs_depr = ["sysutil", "timesync"]
                 csvs = ["ptp", "sys_util", "pru_util"]
                 for element in csvs + csvs_depr:
                     if element in shpr.h5file:
-                        shpr.save_csv(shpr[element], separator)
+                        with log_exception(element):
+                            shpr.save_csv(shpr[element], separator)
                 logs_depr = ["shepherd-log", "dmesg", "exceptions"]
                 logs = ["sheep", "kernel", "phc2sys", "uart"]
                 for element in logs + logs_depr:
                     if element in shpr.h5file:
-                        shpr.save_log(shpr[element])
-                        # TODO: allow omitting timestamp,
-                        #       also test if segmented uart is correctly written
-                        shpr.warn_logs(element, show=True)
+                        with log_exception(element):
+                            shpr.save_log(shpr[element])
+                            # TODO: allow omitting timestamp,
+                            #       also test if segmented uart is correctly written
+                            shpr.warn_logs(element, show=True)
         except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
-- 
2.43.0


From 9da90137dde13af943a8657bbb217780e54803aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 69/80] fix: IVonne-traces are converted without seams and for
 any curve-size

Chunks were interpolated on their own, so the result depended on their size,
last chunks of two or three elements (and short traces) crashed, as did
curves with a duration that is no divider of the recorded interval.
The cubic overshoot also created impossible cells at steps of the light.
---
 shepherd_data/shepherd_data/ivonne.py | 133 +++++++++++++-------------
 1 file changed, 66 insertions(+), 67 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 3a3f83e..f3fdf90 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -11,16 +11,17 @@ literature: https://en.wikipedia.org/wiki/Shockley_diode_equation
 
 import errno
 import logging
-import math
 import os
 import pickle
 from pathlib import Path
 from types import TracebackType
+from typing import Callable
 from typing import Optional
 from typing import Type
 
 import numpy as np
 import pandas as pd
+from tqdm import tqdm
 from tqdm import trange
 from typing_extensions import Self
 
@@ -104,6 +105,28 @@ class Reader:
         self.file_size = self.file_path.stat().st_size
         self.data_rate = self.file_size / self.runtime_s if self.runtime_s > 0 else 0
 
+    @staticmethod
+    def _interpolate(times: pd.Series, values: pd.DataFrame) -> Callable:
+        """Provide function that up-samples the whole trace.
+
+        The trace is never split for this, otherwise there would be seams and parts
+        that are too short. The result stays between adjacent values, as an overshoot
+        leads to impossible cells (i.e. currents that increase with voltage).
+        """
+        from scipy.interpolate import PchipInterpolator  # here due to massive delay
+
+        return PchipInterpolator(times.to_numpy(dtype=float), values.to_numpy(dtype=float))
+
+    def _time_grid_ns(self, elements_n: int, interval_ns: int) -> np.ndarray:
+        """Generate even timestamps (relative to start) that cover the selected elements."""
+        times = self._df["time"]
+        # include the last interval if possible -> up to (but not including) the next element
+        idx_top = min(elements_n, times.shape[0] - 1)
+        if idx_top < 1:
+            return np.arange(0)
+        duration_ns = round((times.iloc[idx_top] - times.iloc[0]) * 1e9)
+        return np.arange(0, duration_ns, interval_ns)
+
     def convert_2_ivcurves(
         self,
         shp_output: Path,
@@ -138,27 +161,19 @@ class Reader:
             tmp_path, datatype="ivcurve", window_samples=pts_per_curve, force_overwrite=True
         ) as sfw:
             sfw.store_hostname("IVonne")
-            curve_interval_us = round(sfw.sample_interval_ns * pts_per_curve / 1000)
-            up_factor = self.sample_interval_ns // sfw.sample_interval_ns
-            max_elements = math.ceil(sfw.max_elements // up_factor)
-            job_iter = trange(0, df_elements_n, max_elements, desc="generate ivcurves", leave=False)
-
-            for idx in job_iter:
-                idx_top = min(idx + max_elements, df_elements_n)
-                df_slice = self._df.iloc[idx : idx_top + 1].copy()
-                df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
-                df_slice = df_slice.set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{curve_interval_us}us")
-                    .interpolate(method="cubic")
-                    .iloc[:-1]
-                )
-
-                for _, coeffs in df_slice.iterrows():
-                    i_proto = iv_model(v_proto, coeffs)
-
-                    sfw.append_iv_data_si(coeffs["time"], v_proto, i_proto)
+            time_start = float(self._df["time"].iloc[0]) if df_elements_n > 0 else 0.0
+            curve_interval_ns = sfw.sample_interval_ns * pts_per_curve
+            times_ns = self._time_grid_ns(df_elements_n, curve_interval_ns)
+            columns = ["a", "b", "c"]
+            if len(times_ns) > 0:
+                coeffs_fn = self._interpolate(self._df["time"] - time_start, self._df[columns])
+            job_iter = tqdm(times_ns, desc="generate ivcurves", leave=False)
+
+            for time_ns in job_iter:
+                coeffs = pd.Series(coeffs_fn(time_ns / 1e9), index=columns)
+                i_proto = iv_model(v_proto, coeffs)
+
+                sfw.append_iv_data_si(time_start + time_ns / 1e9, v_proto, i_proto)
                 # TODO: this could be a lot faster:
                 #   - use lambdas to generate i_proto
                 #   - convert i_proto with lambdas to raw-values
@@ -215,32 +230,35 @@ class Reader:
             tmp_path, datatype="ivsample", force_overwrite=True
         ) as sfw:
             sfw.store_hostname("IVonne")
-            interval_us = round(sfw.sample_interval_ns / 1000)
+            # tracker is applied in slices, as it generates a whole curve for each element
+            # -> one additional element, so upsampling includes the last interval
+            elements_n = min(df_elements_n + 1, self._df.shape[0])
             up_factor = self.sample_interval_ns // sfw.sample_interval_ns
-            max_elements = math.ceil(sfw.max_elements // up_factor)
-            job_iter = trange(
-                0, df_elements_n, max_elements, desc="generate ivsamples", leave=False
-            )
+            max_elements = max(1, sfw.max_elements // up_factor)
+            job_iter = trange(0, elements_n, max_elements, desc="generate ivsamples", leave=False)
 
+            slices = []
             for idx in job_iter:
-                # select (max_elements + 1) elements, so upsampling is without gaps
-                # -> drop a sample at the end
-                idx_top = min(idx + max_elements, df_elements_n)
-                df_slice = self._df.iloc[idx : idx_top + 1].copy()
+                df_slice = self._df.iloc[idx : min(idx + max_elements, elements_n)].copy()
                 df_slice.loc[:, "voc"] = get_voc(df_slice)
                 df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max
-                df_slice = tracker.process(df_slice)
-                df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
-                df_slice = df_slice[["time", "v", "i", "timestamp"]].set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
-                )
-                sfw.append_iv_data_si(
-                    df_slice["time"].to_numpy(),
-                    df_slice["v"].to_numpy(),
-                    df_slice["i"].to_numpy(),
-                )
+                slices.append(tracker.process(df_slice)[["time", "v", "i"]])
+            if len(slices) > 0:
+                self._upsample(sfw, pd.concat(slices), df_elements_n)
+
+    def _upsample(self, sfw: Writer, df: pd.DataFrame, elements_n: int) -> None:
+        """Store an up-sampled version of provided voltages (column v) and currents (i)."""
+        times_ns = self._time_grid_ns(elements_n, sfw.sample_interval_ns)
+        if len(times_ns) < 1:
+            return
+        time_start = float(df["time"].iloc[0])
+        upsample_fn = self._interpolate(df["time"] - time_start, df[["v", "i"]])
+        job_iter = trange(0, len(times_ns), sfw.max_elements, desc="upsample", leave=False)
+
+        for idx in job_iter:
+            times_s = times_ns[idx : idx + sfw.max_elements] / 1e9
+            values = upsample_fn(times_s)
+            sfw.append_iv_data_si(time_start + times_s, values[:, 0], values[:, 1])
 
     def upsample_2_isc_voc(
         self,
@@ -270,27 +288,8 @@ class Reader:
             tmp_path, datatype="isc_voc", force_overwrite=True
         ) as sfw:
             sfw.store_hostname("IVonne")
-            interval_us = round(sfw.sample_interval_ns / 1000)
-            up_factor = self.sample_interval_ns // sfw.sample_interval_ns
-            max_elements = math.ceil(sfw.max_elements // up_factor)
-            job_iter = trange(0, df_elements_n, max_elements, desc="generate upsample", leave=False)
-
-            for idx in job_iter:
-                # select (max_elements + 1) elements, so upsampling is without gaps
-                # -> drop a sample at the end
-                idx_top = min(idx + max_elements, df_elements_n)
-                df_slice = self._df.iloc[idx : idx_top + 1].copy()
-                df_slice.loc[:, "voc"] = get_voc(df_slice)
-                df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max
-                df_slice.loc[:, "isc"] = get_isc(df_slice)
-                df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
-                df_slice = df_slice[["time", "voc", "isc", "timestamp"]].set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
-                )
-                sfw.append_iv_data_si(
-                    df_slice["time"].to_numpy(),
-                    df_slice["voc"].to_numpy(),
-                    df_slice["isc"].to_numpy(),
-                )
+            df = self._df[["time"]].copy()
+            df["v"] = get_voc(self._df)
+            df.loc[df["v"] >= v_max, "v"] = v_max
+            df["i"] = get_isc(self._df)
+            self._upsample(sfw, df, df_elements_n)
-- 
2.43.0


From 1ca9efd4dd8f4fa102d82bda9ff29db20d3c0f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 70/80] fix: IVonne-durations don't lose an element to
 float-rounding

i.e. 2.3 s * 50 Hz = 114.99
---
 shepherd_data/shepherd_data/ivonne.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index f3fdf90..d888375 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -147,7 +147,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], int(round(duration_s * self.samplerate_sps, 6)))
         else:
             df_elements_n = self._df.shape[0]
 
@@ -213,7 +213,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], int(round(duration_s * self.samplerate_sps, 6)))
         else:
             df_elements_n = self._df.shape[0]
 
@@ -276,7 +276,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], int(round(duration_s * self.samplerate_sps, 6)))
         else:
             df_elements_n = self._df.shape[0]
 
-- 
2.43.0


From a032a050c74db1f39c4df3c5029cf40c9d916803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 71/80] fix: open-circuit-tracker handles dark cells

an open-circuit voltage of zero raised a ValueError
---
 shepherd_data/shepherd_data/mppt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 7ce7015..efda45a 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -82,7 +82,7 @@ class OpenCircuitTracker(MPPTracker):
         if "voc" not in coeffs.columns:
             coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["ivcurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
-            lambda x: np.argmax(self.v_proto[self.v_proto < self.ratio * x["voc"]]),
+            lambda x: max(0, np.count_nonzero(self.v_proto < self.ratio * x["voc"]) - 1),
             axis=1,
         )
         coeffs["i"] = coeffs.apply(lambda x: x["icurve"][x["rvoc_pos"]], axis=1)
-- 
2.43.0


From 14ae120e70e8e594e5d151144d77f9d988067576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 72/80] fix: open-circuit-tracker finds the open-circuit
 voltage on its own

It looked for a column that doesn't exist, and cells that still deliver current
at v_max were taken as dark.
---
 shepherd_data/shepherd_data/mppt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index efda45a..4d4eac1 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -36,7 +36,8 @@ def find_oc(v_arr: np.ndarray, i_arr: np.ndarray, ratio: float = 0.05) -> np.nda
     Searches last current value that is above a certain ratio of the short-circuit
     current.
     """
-    return v_arr[np.argmax(i_arr < i_arr[0] * ratio)]
+    below = i_arr <= i_arr[0] * ratio
+    return v_arr[np.argmax(below)] if below.any() else v_arr[-1]
 
 
 class MPPTracker(ABC):
@@ -80,7 +81,7 @@ class OpenCircuitTracker(MPPTracker):
         """
         coeffs["icurve"] = coeffs.apply(lambda x: iv_model(self.v_proto, x), axis=1)
         if "voc" not in coeffs.columns:
-            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["ivcurve"]), axis=1)
+            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["icurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
             lambda x: max(0, np.count_nonzero(self.v_proto < self.ratio * x["voc"]) - 1),
             axis=1,
-- 
2.43.0


From 54076b87995a707c5d222c4734587677e5ab816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 73/80] fix: diode target finds its operating point for all
 parameters

---
 .../shepherd_core/vsource/target_model.py     | 30 ++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index 5680d0c..3f6505e 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -12,7 +12,6 @@ TODO: add more targets
 import math
 from abc import ABC
 from abc import abstractmethod
-from contextlib import suppress
 
 
 class TargetABC(ABC):
@@ -80,22 +79,19 @@ class DiodeTarget(TargetABC):
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
         if pwr_good or not self.ctrl:
             V_CC = voltage_uV * 1e-6
-            V_D = V_CC / 2
-            I_R = I_D = 0
-            # there is no direct formular, but this iteration converges fast
-            for _ in range(10):
-                # low voltages tend to produce log(x<0)=err
-                with suppress(ValueError):
-                    V_D = self.c1 * math.log(1 + (V_CC - V_D) / (self.R_Ohm * self.I_S))
-                # both currents are positive and should be identical
-                I_R = max(0.0, (V_CC - V_D) / self.R_Ohm)
-                I_D = max(0.0, self.I_S * math.expm1(V_D / self.c1))
-                with suppress(ZeroDivisionError):
-                    if abs(I_R / I_D - 1) < 1e-6:
-                        break
-                # take mean of both currents and determine a new V_D
-                V_D = V_CC - self.R_Ohm * (I_R + I_D) / 2
-            return 1e9 * (I_R + I_D) / 2  # = nA
+            if V_CC <= 0:
+                return 0
+            # there is no direct formular, but newton converges fast when starting above the solution
+            V_D = min(V_CC, self.c1 * math.log1p(V_CC / (self.R_Ohm * self.I_S)))
+            I_D = 0
+            for _ in range(20):
+                I_D = self.I_S * math.expm1(V_D / self.c1)
+                # voltages of diode and resistor should add up
+                V_err = V_D + self.R_Ohm * I_D - V_CC
+                if abs(V_err) < 1e-9:
+                    break
+                V_D -= V_err / (1 + self.R_Ohm * (I_D + self.I_S) / self.c1)
+            return 1e9 * I_D  # = nA
         return 0
 
 
-- 
2.43.0


From 135c8511ffe5744ef984ad9f5308cb573a423dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 74/80] fix: metadata includes attributes that are arrays

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index a5d7190..ec30e7f 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -657,6 +657,8 @@ class Reader:
             elif "int" in str(type(attr_value)):
                 # TODO: why not isinstance? can it be List[int] other complex type?
                 attr_value = int(attr_value)
+            elif isinstance(attr_value, np.ndarray):
+                attr_value = attr_value.tolist()
             else:
                 attr_value = float(attr_value)
             metadata[attr] = attr_value
-- 
2.43.0


From 033e448cb27842b537e42e5e43a8cc0341947ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:04 +0000
Subject: [PATCH 75/80] fix: stored files don't mix when several threads write
 them, long names work

---
 shepherd_core/shepherd_core/file_safe.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/file_safe.py b/shepherd_core/shepherd_core/file_safe.py
index 95b1aed..8289546 100644
--- a/shepherd_core/shepherd_core/file_safe.py
+++ b/shepherd_core/shepherd_core/file_safe.py
@@ -5,9 +5,12 @@ import os
 import shutil
 from contextlib import contextmanager
 from contextlib import suppress
+from itertools import count
 from pathlib import Path
 from typing import Generator
 
+_counter = count()
+
 
 @contextmanager
 def replace_when_done(file_path: Path) -> Generator[Path, None, None]:
@@ -20,7 +23,8 @@ def replace_when_done(file_path: Path) -> Generator[Path, None, None]:
     :return: path in same directory that has to be used for writing
     """
     file_path = Path(file_path).resolve()
-    tmp_path = file_path.with_name(f".{file_path.name}.{os.getpid()}.part")
+    # unique for each process & thread, while not exceeding the allowed length
+    tmp_path = file_path.with_name(f".{file_path.name[:40]}.{os.getpid()}.{next(_counter)}.part")
     try:
         yield tmp_path
         if file_path.is_file():
-- 
2.43.0


From 6504a89e72b8cdfddc0ee38141de82990bed88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 76/80] fix: cuts, down-samplings & plots lost up to 50 ms at
 the end, as limits came from the rounded runtime

---
 shepherd_data/shepherd_data/reader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 273186a..da3ee8c 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -284,10 +284,11 @@ class Reader(CoreReader):
         # prepare cut
         if not isinstance(start_s, (float, int)):
             start_s = 0
+        duration_s = self.ds_voltage.shape[0] / self.samplerate_sps  # .runtime_s is rounded
         if not isinstance(end_s, (float, int)):
-            end_s = self.runtime_s
+            end_s = duration_s
         start_s = max(0, start_s)
-        end_s = min(self.runtime_s, end_s)
+        end_s = min(duration_s, end_s)
 
         start_sample = round(start_s * self.samplerate_sps)
         end_sample = round(end_s * self.samplerate_sps)
@@ -313,7 +314,7 @@ class Reader(CoreReader):
             )
 
         # assemble file-name of output
-        if start_s != 0.0 or end_s != self.runtime_s:
+        if start_s != 0.0 or end_s != duration_s:
             start_str = f"{start_s:.3f}".replace(".", "s")
             end_str = f"{end_s:.3f}".replace(".", "s")
             cut_str = f".cut_{start_str}_to_{end_str}"
@@ -496,10 +497,11 @@ class Reader(CoreReader):
             self._logger.warning("Plot-Function was not written for IVCurves.")
         if not isinstance(start_s, (float, int)):
             start_s = 0
+        duration_s = self.ds_voltage.shape[0] / self.samplerate_sps  # .runtime_s is rounded
         if not isinstance(end_s, (float, int)):
-            end_s = self.runtime_s
+            end_s = duration_s
         start_s = max(0, start_s)
-        end_s = min(self.runtime_s, end_s)
+        end_s = min(duration_s, end_s)
         start_sample = round(start_s * self.samplerate_sps)
         end_sample = round(end_s * self.samplerate_sps)
         if end_sample - start_sample < 5:
-- 
2.43.0


From ef9b0ecb73088629d6209da87172f4e4aaf00afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 77/80] fix: files down-sampled by a fractional factor were
 named after & described with a factor that was not applied

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index da3ee8c..328ddce 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -307,6 +307,7 @@ class Reader(CoreReader):
                 "Cut & downsample for %s failed because factor < 1",
                 self.file_path.name,
             )
+        ds_factor = math.floor(ds_factor)  # as used by .downsample()
         if ((end_sample - start_sample) / ds_factor) < 1000:
             raise ValueError(
                 "Cut & downsample for %s failed because resulting sample-size is too small",
@@ -321,7 +322,7 @@ class Reader(CoreReader):
         else:
             cut_str = ""
 
-        ds_str = f".downsample_x{round(ds_factor)}" if ds_factor > 1 else ""
+        ds_str = f".downsample_x{ds_factor}" if ds_factor > 1 else ""
 
         dst_file = self.file_path.resolve().with_suffix(cut_str + ds_str + ".h5")
         if dst_file.exists():
-- 
2.43.0


From 2e469fe1ec318c542a4aac45655e7e150671e3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 78/80] fix: cuts & plots with limits in the same milliseconds
 shared one file, so the second request returned the first result

---
 shepherd_data/shepherd_data/reader.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 328ddce..5d71f9e 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -27,6 +27,12 @@ from shepherd_core.logger import logger
 LOG_FAULTY: str = "[[[ extractor - faulty element ]]]"
 
 
+def time_to_str(time_s: float) -> str:
+    """Format time for usage in file-names, with resolution of ms, or us if needed."""
+    text = f"{time_s:.6f}"
+    return (text[:-3] if text.endswith("000") else text).replace(".", "s")
+
+
 class Reader(CoreReader):
     """Sequentially Reads shepherd-data from HDF5 file.
 
@@ -316,8 +322,8 @@ class Reader(CoreReader):
 
         # assemble file-name of output
         if start_s != 0.0 or end_s != duration_s:
-            start_str = f"{start_s:.3f}".replace(".", "s")
-            end_str = f"{end_s:.3f}".replace(".", "s")
+            start_str = time_to_str(start_s)
+            end_str = time_to_str(end_s)
             cut_str = f".cut_{start_str}_to_{end_str}"
         else:
             cut_str = ""
@@ -608,8 +614,8 @@ class Reader(CoreReader):
         if data is None:
             return
 
-        start_str = f"{data['start_s']:.3f}".replace(".", "s")
-        end_str = f"{data['end_s']:.3f}".replace(".", "s")
+        start_str = time_to_str(data["start_s"])
+        end_str = time_to_str(data["end_s"])
         plot_path = self.file_path.resolve().with_suffix(f".plot_{start_str}_to_{end_str}.png")
         if plot_path.exists():
             self._logger.warning("Plot exists, will skip & not overwrite!")
@@ -639,8 +645,8 @@ class Reader(CoreReader):
         :param height: plot-height
         :param only_pwr: plot power-trace instead of voltage, current & power
         """
-        start_str = f"{data[0]['start_s']:.3f}".replace(".", "s")
-        end_str = f"{data[0]['end_s']:.3f}".replace(".", "s")
+        start_str = time_to_str(data[0]["start_s"])
+        end_str = time_to_str(data[0]["end_s"])
         plot_path = (
             Path(plot_path).resolve().with_suffix(f".multiplot_{start_str}_to_{end_str}.png")
         )
-- 
2.43.0


From 242fd0e8815c6dd089c925886c207f754ed52393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 79/80] fix: reader treats the offset of the time-calibration
 as part of a duration

---
 shepherd_core/shepherd_core/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index ec30e7f..86a1d41 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -189,7 +189,7 @@ class Reader:
         # above's typecasting prevents overflow in u64-format
         if (sample_count > 0) and (duration_raw > 0):
             # this assumes iso-chronous sampling
-            duration_s = self._cal.time.raw_to_si(duration_raw)
+            duration_s = duration_raw * self._cal.time.gain  # offset is no part of a difference
             # ⤷ n samples span (n - 1) intervals
             self.sample_interval_s = duration_s / (sample_count - 1)
             self.sample_interval_ns = round(10**9 * self.sample_interval_s)
@@ -568,7 +568,7 @@ class Reader:
 
         diffs_ll = [calc_timediffs(i) for i in job_iter]
         diffs = {
-            round(self._cal.time.raw_to_si(j) / self.samples_per_buffer, 6)
+            round(float(j) * self._cal.time.gain / self.samples_per_buffer, 6)
             for i in diffs_ll
             for j in i
         }
-- 
2.43.0


From 7b54030861e32340a78c3f10663c6ed26bafe738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 80/80] fix: csv-export of a recording ignores the offset of
 its time-calibration

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 5d71f9e..0707447 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -84,6 +84,7 @@ class Reader(CoreReader):
             self._logger.info("CSV-Generator will save '%s' to '%s'", h5_group.name, csv_path.name)
             csv_file.write(header + "\n")
             ts_gain = h5_group["time"].attrs.get("gain", 1e-9)
+            ts_offset = h5_group["time"].attrs.get("offset", 0.0)
             # for converting data to si - if raw=false
             gains: Dict[str, float] = {
                 key: h5_group[key].attrs.get("gain", 1.0) for key in datasets[1:]
@@ -92,7 +93,7 @@ class Reader(CoreReader):
                 key: h5_group[key].attrs.get("offset", 0.0) for key in datasets[1:]
             }
             for idx, time_ns in enumerate(h5_group["time"][:]):
-                timestamp = local_from_timestamp(time_ns * ts_gain)
+                timestamp = local_from_timestamp(time_ns * ts_gain + ts_offset)
                 csv_file.write(timestamp.strftime("%Y-%m-%d %H:%M:%S.%f"))
                 for key in datasets[1:]:
                     values = h5_group[key][idx]
-- 
2.43.0

