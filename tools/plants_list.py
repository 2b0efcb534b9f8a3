"""Descriptions of planted bugs, see plants.py."""


def register(plant, CORE, DATA):
    plant(
        "c01-tail-of-timestamps", "C01",
        "a batch whose array of timestamps is longer than its voltage / current arrays",
        "samples get stored with the timestamps of later samples instead of their own",
        [(CORE + "writer.py", "= timestamp[:len_new]", "= timestamp[-len_new:]")],
        '''
import numpy as np
from shepherd_core import Reader, Writer
n = 10_000
with Writer("a.h5", cal_data=None, compression=None) as w:
    w.append_iv_data_raw(np.arange(n + 50, dtype="u8") * 10_000, np.arange(n, dtype="u4"), np.arange(n, dtype="u4"))
with Reader("a.h5") as r:
    t = np.array(r.ds_time)
assert t[0] == 0 and t[-1] == (n - 1) * 10_000, t
''')
    plant(
        "c08-energy-slice-end", "C08",
        "a recording that is streamed in more than one slice",
        "the last sample of every full slice is missing in the energy, so it depends on the slice size",
        [(CORE + "reader.py", "idx_stop = min(idx_start + self.max_elements, self.ds_voltage.shape[0])\n            vol_v", "idx_stop = min(idx_start + self.max_elements - 1, self.ds_voltage.shape[0])\n            vol_v")],
        '''
import numpy as np
from shepherd_core import Reader, Writer
n = 40_000
with Writer("a.h5", compression=None) as w:
    for k in range(4):
        w.append_iv_data_raw(k * 100_000_000, np.full(n // 4, 1000, dtype="u4"), np.full(n // 4, 1000, dtype="u4"))
with Reader("a.h5") as r:
    a = r.energy()
    r.max_elements = 10_000
    b = r.energy()
assert abs(a / b - 1) < 1e-9, (a, b)
''')
    plant(
        "c11-custom-id-order", "C11",
        "a target config with custom IDs whose target IDs are not in ascending order",
        "targets get the custom ID of another target of the same config",
        [(CORE + "data_models/experiment/target_config.py", "self.custom_IDs[self.target_IDs.index(target_id)]", "self.custom_IDs[sorted(self.target_IDs).index(target_id)]")],
        '''
from shepherd_core.data_models import EnergyEnvironment, Experiment, Firmware, TargetConfig
from shepherd_core.data_models.task import TestbedTasks
from shepherd_core.data_models.testbed import Testbed
cfg = TargetConfig(target_IDs=[9, 6, 8], custom_IDs=[1009, 1006, 1008], energy_env=EnergyEnvironment(name="SolarSunny"), firmware1=Firmware(name="nrf52_demo_rf"))
plan = TestbedTasks.from_xp(Experiment(name="xp", target_configs=[cfg]))
tb = Testbed()
got = {t: plan.get_observer_tasks(tb.get_observer(t).name).fw1_mod.custom_id for t in (9, 6, 8)}
assert got == {9: 1009, 6: 1006, 8: 1008}, got
''')
    plant(
        "c05-days-lost", "C05",
        "a model with a duration of a day or longer",
        "durations of a day and longer lose their days when stored",
        [(CORE + "writer.py", "int(data.total_seconds())", "int(data.seconds)")],
        '''
from datetime import timedelta
from shepherd_core.data_models.experiment import PowerTracing
m = PowerTracing(duration=timedelta(days=2, seconds=5))
p = m.to_file("m.yaml")
assert PowerTracing.from_file(p).duration == m.duration, PowerTracing.from_file(p)
''')
    plant(
        "c15-own-timestamps", "C15",
        "an input recording whose timestamps are not exactly 10 us apart",
        "output samples of a simulation get evenly spaced timestamps instead of the ones of the processed input",
        [(CORE + "vsource/virtual_source_simulation.py", "append_iv_data_raw(_t, v_out, i_out)", "append_iv_data_raw(int(_t[0]), v_out, i_out)")],
        '''
import logging
from pathlib import Path
import numpy as np
from shepherd_core import CalibrationHarvester, Reader, Writer
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.vsource import ResistiveTarget, simulate_source
n = 10_000
t = np.arange(n, dtype="u8") * 10_000 + (np.arange(n, dtype="u8") % 7) * 50
with Writer("in.h5", cal_data=CalibrationHarvester(), mode="harvester", compression=None) as w:
    w.append_iv_data_raw(t, np.full(n, 50_000, dtype="u4"), np.full(n, 40_000, dtype="u4"))
simulate_source(VirtualSourceConfig(name="direct"), ResistiveTarget(R_Ohm=1e3), Path("in.h5").resolve(), Path("out.h5").resolve())
with Reader("out.h5") as r:
    assert np.array_equal(np.array(r.ds_time), t), np.array(r.ds_time)[:9]
''')
    plant(
        "c12-power-good-while-off", "C12",
        "a source whose power-good threshold lies below its enable threshold, charging from empty",
        "power-good is signalled while the output is still off",
        [(CORE + "vsource/virtual_converter_model.py", "self.power_good = self.is_outputting", "self.power_good = True")],
        '''
from shepherd_core import CalibrationEmulator
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.vsource import VirtualSourceModel
cfg = VirtualSourceConfig(name="BQ25570", C_intermediate_uF=20.0, C_output_uF=0.1, V_intermediate_init_mV=100, V_intermediate_enable_threshold_mV=3000,
    V_intermediate_disable_threshold_mV=1500, V_pwr_good_enable_threshold_mV=2000, V_pwr_good_disable_threshold_mV=1600, immediate_pwr_good_signal=True)
src = VirtualSourceModel(cfg, CalibrationEmulator(), log_intermediate=False)
seen = False
for _ in range(5000):
    src.iterate_sampling(V_inp_uV=2_000_000, I_inp_nA=10_000_000, I_out_nA=0)
    off = not src.cnv.is_outputting
    if not off:
        break
    above = src.cnv.V_mid_uV > 2_100_000
    seen |= off and above
    assert not (off and above and src.cnv.get_power_good()), src.cnv.V_mid_uV
assert seen
''')
    plant(
        "c12-power-good-after-drop", "C12",
        "an output capacitance that lets the storage voltage drop below the power-good threshold when the output switches on",
        "power-good isn't signalled at the step the output is enabled, although the storage voltage was above its threshold",
        [(CORE + "vsource/virtual_converter_model.py", "elif V_mid_uV_now >= self._cfg.V_pwr_good_enable_threshold_uV:", "elif self.V_mid_uV >= self._cfg.V_pwr_good_enable_threshold_uV:")],
        '''
from shepherd_core.data_models import VirtualHarvesterConfig, VirtualSourceConfig
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
from shepherd_core.vsource import PruCalibration, VirtualConverterModel
cfg = VirtualSourceConfig(name="BQ25570", C_intermediate_uF=10.0, C_output_uF=8.0, V_intermediate_init_mV=100, V_intermediate_enable_threshold_mV=3000,
    V_intermediate_disable_threshold_mV=1000, V_pwr_good_enable_threshold_mV=2900, V_pwr_good_disable_threshold_mV=500, immediate_pwr_good_signal=True,
    interval_check_thresholds_ms=0)
pru = ConverterPRUConfig.from_vsrc(cfg, log_intermediate_node=False)
c = VirtualConverterModel(pru, PruCalibration())
assert pru.dV_enable_output_uV > 200_000, pru.dV_enable_output_uV
c.update_states_and_output()
assert not c.get_power_good() and not c.is_outputting
c.set_V_intermediate_uV(max(3_050_000, c.V_enable_output_threshold_uV + 1000))
c.update_states_and_output()
assert c.is_outputting and c.V_mid_uV < 2_900_000, c.V_mid_uV
assert c.get_power_good()
''')
    plant(
        "c13-optimum-too-old", "C13",
        "a source that got weaker, so the last optimum has to expire",
        "the optimal tracker delivers a sample that is older than the last two windows",
        [(CORE + "vsource/virtual_harvester_model.py", "            self.age_now = self.age_nxt\n            self.power_now", "            self.age_now = 0\n            self.power_now")],
        '''
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.vsource import VirtualHarvesterModel
W = 50
cfg = VirtualHarvesterConfig(name="mppt_opt", voltage_min_mV=0, voltage_max_mV=5000)
pru = HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in="ivcurve", window_size=W, voltage_step_V=0.06)
h = VirtualHarvesterModel(pru)
hist = []
for n in range(40 * W):
    v = (n % W) * 60_000
    scale = max(1, 4000 - n)  # source gets weaker all the time
    i = max(0, 3_000_000 - v) * scale // 3000
    hist.append((v, i))
    out = h.ivcurve_sample(v, i)
    if out != (0, 0):
        assert out in hist[-(2 * W + 2):], (n, out)
''')
    plant(
        "c14-shared-residue", "C14",
        "two sources with a calibration that has a negative current offset, running side by side",
        "the residue of negative currents is shared by all sources of the process",
        [(CORE + "vsource/virtual_converter_model.py", """            if I_nA > self.negative_residue_nA:
                I_nA -= self.negative_residue_nA
                self.negative_residue_nA = 0
            else:
                self.negative_residue_nA = self.negative_residue_nA - I_nA
                self.negative_residue_nA = min(self.negative_residue_nA, self.RESIDUE_MAX_nA)
""", """            residue_nA = PruCalibration.negative_residue_nA
            if I_nA > residue_nA:
                I_nA -= residue_nA
                PruCalibration.negative_residue_nA = 0
            else:
                PruCalibration.negative_residue_nA = min(residue_nA - I_nA, self.RESIDUE_MAX_nA)
""")],
        '''
from shepherd_core import CalibrationEmulator, CalibrationPair
from shepherd_core.vsource import PruCalibration
cal = CalibrationEmulator(adc_C_A=CalibrationPair(gain=1e-9, offset=-1e-7))
def run(p, vals):
    return [p.conv_adc_raw_to_nA(v) for v in vals]
alone = run(PruCalibration(cal), [10, 20, 500, 130, 40, 900])
a, b = PruCalibration(cal), PruCalibration(cal)
got = []
for v in [10, 20, 500, 130, 40, 900]:
    got.append(a.conv_adc_raw_to_nA(v))
    b.conv_adc_raw_to_nA(3)
assert got == alone, (got, alone)
''')
    plant(
        "c16-baud-percentile", "C16",
        "text whose frames consist mostly of levels longer than one bit, decoded without given baud-rate",
        "the baud-rate is estimated from longer levels, so the text is decoded wrongly",
        [(CORE + "decoder_waveform/uart.py", "np.percentile(dur_steps[dur_steps > 0], 10)", "np.percentile(dur_steps[dur_steps > 0], 25)")],
        '''
import numpy as np
from shepherd_core.decoder_waveform import Uart
baud = 115200
text = "3333" * 60
t, ev = 0.01, [(0.0, 1)]
level = 1
for c in text:
    bits = [0] + [(ord(c) >> k) & 1 for k in range(8)] + [1]
    for b in bits:
        if b != level:
            ev.append((t, b))
            level = b
        t += 1 / baud
    t += 100 / baud
ev.append((t + 0.01, 0))
ev.append((t + 0.02, 1))
got = Uart(np.array(ev)).get_text()
assert got.startswith(text), got[:40]
''')
    plant(
        "c17-first-low-lost", "C17",
        "a pin that is low at the start of the recording",
        "the waveform lacks the initial low state, so the pin is unknown until its first rising edge",
        [(CORE + "reader.py", "data_1 = np.concatenate(([not data[0]], data[:-1]))", "data_1 = np.concatenate(([False], data[:-1]))")],
        '''
import h5py, numpy as np, yaml
from shepherd_core import Reader, Writer
with Writer("a.h5", compression=None) as w:
    w.append_iv_data_raw(0, np.zeros(10_000, dtype="u4"), np.zeros(10_000, dtype="u4"))
with h5py.File("a.h5", "r+") as f:
    g = f.create_group("gpio")
    g["time"] = np.array([1, 5, 9, 12], dtype="u8")
    g["value"] = np.array([2, 3, 2, 0], dtype="u2")
    g["value"].attrs["description"] = yaml.safe_dump({0: {"name": "p0"}, 1: {"name": "p1"}})
with Reader("a.h5") as r:
    wf = r.gpio_to_waveforms()
assert wf["p0"].tolist() == [[1, 0], [5, 1], [9, 0]], wf["p0"]
assert wf["p1"].tolist() == [[1, 1], [12, 0]], wf["p1"]
''')
    SERVER = '''
import http.server, json, threading, time, warnings
warnings.simplefilter("ignore")
class H(http.server.BaseHTTPRequestHandler):
    log = []
    def reply(self, code, obj):
        b = json.dumps(obj).encode()
        self.send_response(code); self.send_header("Content-Length", str(len(b))); self.end_headers(); self.wfile.write(b)
    def do_GET(self):
        if self.path.startswith("/testbed/session_key"):
            if HANG:
                time.sleep(25)
            self.reply(200, {"value": "abc"})
        elif self.path.startswith("/testbed/user"):
            self.reply(200, {"id": 1, "name": "n", "email": "a@b.org", "group": "grp", "token": "a" * 30, "active": True})
        else:
            self.reply(404, {})
    def do_POST(self):
        self.rfile.read(int(self.headers["Content-Length"]))
        self.reply(507, {"error": "full"})
    def log_message(self, *a):
        pass
srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
srv.daemon_threads = True
threading.Thread(target=srv.serve_forever, daemon=True).start()
url = f"http://127.0.0.1:{srv.server_port}/testbed"
from shepherd_core.testbed_client.client_web import WebClient
from shepherd_core.data_models.testbed import GPIO
'''
    plant(
        "c18-insert-despite-error", "C18",
        "a server that answers an insert with an error status",
        "insert acknowledges a model the server refused",
        [(CORE + "testbed_client/client_web.py", "        r.raise_for_status()\n        if r.request.method", "        if r.request.method")],
        '''
HANG = False
''' + SERVER + '''
c = WebClient(server=url, token="x")
try:
    ok = c.insert(GPIO(name="gpio0"))
except Exception:
    ok = False
assert not ok
''')
    plant(
        "c18-unbounded-request", "C18",
        "a server that accepts the query for a session-key, but doesn't answer",
        "connecting waits without limit",
        [(CORE + "testbed_client/client_web.py", 'r = self._req.get(self._server + "/session_key", timeout=2)', 'r = self._req.get(self._server + "/session_key")')],
        '''
HANG = True
''' + SERVER + '''
t0 = time.monotonic()
try:
    WebClient(server=url, token="x")
    raise SystemExit("connected")
except Exception:
    pass
assert time.monotonic() - t0 < 15
''')
    plant(
        "c20-first-is-earliest", "C20",
        "a fleet whose first host isn't the one with the earliest clock",
        "hosts whose clock is ahead are not reported when the first host is ahead as well",
        [(CORE + "inventory/__init__.py", "ts_earl = min([_e.created.timestamp() for _e in self.elements])", "ts_earl = self.elements[0].created.timestamp()")],
        '''
from datetime import timedelta
from shepherd_core.inventory import Inventory, InventoryList
a = Inventory.collect()
b = a.model_copy(update={"hostname": "late", "created": a.created + timedelta(seconds=60)})
c = a.model_copy(update={"hostname": "early"})
for order in ([b, c], [c, b]):
    w = InventoryList(elements=order).warn()
    assert "late" in w.get("time_delta", ""), (order[0].hostname, w)
''')
    plant(
        "c20-created-after-helpers", "C20",
        "helper programs that take their time",
        "the clock of a host is read after the helpers ran, so slow hosts seem to have a wrong clock",
        [(CORE + "inventory/__init__.py", 'model["created"] = sid["timestamp"]', 'model["created"] = datetime.now().astimezone()')],
        '''
import subprocess, time
from shepherd_core.inventory import Inventory
from shepherd_core.inventory.system import SystemInventory
real = subprocess.run
def slow(*a, **k):
    time.sleep(2)
    return real(*a, **k)
subprocess.run = slow
inv = Inventory.collect()
assert abs((inv.created - inv.timestamp).total_seconds()) < 0.5, inv.created - inv.timestamp
''')
    plant(
        "c21-start-in-other-season", "C21",
        "a naive start-time that lies beyond the next daylight-saving switch of the zone",
        "the task starts an hour early or late",
        [(CORE + "data_models/task/emulation.py", "            values[\"time_start\"] = values[\"time_start\"].astimezone()\n", "            values[\"time_start\"] = values[\"time_start\"].replace(tzinfo=local_tz())\n")],
        '''
import os, time
os.environ["TZ"] = "Europe/Berlin"
time.tzset()
from datetime import datetime, timedelta
from zoneinfo import ZoneInfo
from shepherd_core.data_models.task import EmulationTask
now = datetime.now()
for month in (1, 7):
    naive = datetime(now.year + 1, month, 15, 12, 0, 0)
    got = EmulationTask(input_path="./in.h5", time_start=naive).time_start
    assert got.timestamp() == naive.replace(tzinfo=ZoneInfo("Europe/Berlin")).timestamp(), (naive, got)
''')
    plant(
        "c22-limit-counts-everything", "C22",
        "a log with entries below the level before the relevant ones",
        "the limit of listed warnings is used up by entries that aren't listed",
        [(DATA + "reader.py", """            if limit < 1:
                break
            if _level is None or _level < min_level:
                continue
""", """            if limit < 1:
                break
            limit -= 1
            if _level is None or _level < min_level:
                continue
"""), (DATA + "reader.py", """                self._logger.error("    %s: %s", _timestamp, _msg)
            limit -= 1
""", """                self._logger.error("    %s: %s", _timestamp, _msg)
""")],
        '''
import logging
import h5py, numpy as np
from shepherd_core import Writer
from shepherd_data import Reader
with Writer("a.h5", compression=None) as w:
    w.append_iv_data_raw(0, np.zeros(10_000, dtype="u4"), np.zeros(10_000, dtype="u4"))
with h5py.File("a.h5", "r+") as f:
    g = f.create_group("sheep")
    g["time"] = np.arange(20, dtype="u8") * 10**9
    g["level"] = np.array([10] * 15 + [40] * 5, dtype="u1")
    g.create_dataset("message", data=[f"msg{k}" for k in range(20)], dtype=h5py.special_dtype(vlen=str))
out = []
class Hd(logging.Handler):
    def emit(self, rec):
        out.append(rec.getMessage())
with Reader(__import__("pathlib").Path("a.h5")) as r:
    r._logger.addHandler(Hd())
    n = r.warn_logs("sheep", min_level=30, limit=3)
assert n == 5
got = [o for o in out if "msg" in o]
assert len(got) == 3 and "msg15" in got[0], out
''')
    plant(
        "c10-override-by-none", "C10",
        "an entry that inherits from another and overrides a value by None",
        "overrides by None are lost, the inherited value stays",
        [(CORE + "testbed_client/fixtures.py", "                base_dict[key] = value\n", "                if value is not None:\n                    base_dict[key] = value\n")],
        '''
from shepherd_core.data_models.base.wrapper import Wrapper
from shepherd_core.testbed_client.fixtures import Fixture
f = Fixture("thing")
f.insert(Wrapper(datatype="thing", parameters={"id": 1, "name": "base", "x": 5, "y": 6}))
f.insert(Wrapper(datatype="thing", parameters={"id": 2, "name": "own", "inherit_from": "base", "x": None}))
got, _ = f.inheritance({"name": "own"})
assert got["x"] is None and got["y"] == 6, got
''')
    plant(
        "c04-offset-before-gain", "C04",
        "a recording with a calibration-offset (si values)",
        "csv-export scales the offset by the gain, exported values differ from the recorded ones",
        [(DATA + "reader.py", "values = values * gains[key] + offsets[key]", "values = (values + offsets[key]) * gains[key]")],
        '''
from pathlib import Path
import numpy as np
from shepherd_core import CalibrationPair, CalibrationSeries, Writer
from shepherd_data import Reader
n = 10_000
cal = CalibrationSeries(voltage=CalibrationPair(gain=1e-3, offset=2.0), current=CalibrationPair(gain=1e-6, offset=-1e-3))
p = Path("a.h5").resolve()
with Writer(p, cal_data=cal, compression=None) as w:
    w.append_iv_data_raw(0, np.full(n, 1000, dtype="u4"), np.full(n, 5000, dtype="u4"))
with Reader(p) as r:
    r.save_csv(r["data"])
row = Path("a.data.csv").read_text(encoding="utf-8-sig").splitlines()[1].split(";")
vals = sorted(float(x) for x in row[1:])
assert abs(vals[0] - 0.004) < 1e-9 and abs(vals[1] - 3.0) < 1e-9, row
''')
    plant(
        "c06-last-verdict-wins", "C06",
        "a batch with an invalid recording that isn't the last one",
        "validate exits with the verdict of the last file only",
        [(DATA + "cli.py", "                valid_dir &= valid_file\n", "                valid_dir = valid_file\n")],
        '''
import os, subprocess, sys
from pathlib import Path
import h5py, numpy as np
from shepherd_core import Writer
d = Path("d").resolve()
d.mkdir()
for name in "abcdef":
    with Writer(d / f"{name}.h5", compression=None) as w:
        for k in range(3):
            w.append_iv_data_raw(k * 10**8, np.zeros(10_000, dtype="u4"), np.zeros(10_000, dtype="u4"))
        w.store_hostname("x")
codes = []
for name in "abcdef":
    with h5py.File(d / f"{name}.h5", "r+") as f:
        t = f["data"]["time"][:]
        f["data"]["time"][10_000:] = t[10_000:] + 5 * 10**7
    codes.append(subprocess.run([sys.executable, "-m", "shepherd_data.cli", "validate", str(d)], capture_output=True).returncode)
    with h5py.File(d / f"{name}.h5", "r+") as f:
        f["data"]["time"][:] = t
assert codes == [1] * 6, codes
''')
    plant(
        "c07-coarse-timediffs", "C07",
        "a clock-jump of less than half a buffer",
        "the time-check accepts recordings with clock-jumps of up to 50 ms",
        [(CORE + "reader.py", "return (len(diffs) <= 1) and diffs[0] == round(0.1 / self.samples_per_buffer, 6)", "return all(abs(diff - 0.1 / self.samples_per_buffer) < 5e-6 for diff in diffs)")],
        '''
import numpy as np
from shepherd_core import Reader, Writer
for jump, ok in ((0, True), (40_000_000, False), (-40_000_000, False), (300_000_000, False)):
    with Writer("a.h5", compression=None, force_overwrite=True) as w:
        for k in range(6):
            w.append_iv_data_raw(10**18 + k * 10**8 + (jump if k > 2 else 0), np.zeros(10_000, dtype="u4"), np.zeros(10_000, dtype="u4"))
    with Reader("a.h5") as r:
        assert r.check_timediffs() == ok, jump
''')
    plant(
        "c08-filter-forgets", "C08",
        "a down-sampling that needs more than one internal slice",
        "the filter starts anew at each slice, so the result has dips at the seams",
        [(DATA + "reader.py", "slice_ds, f_state = signal.sosfilt(filter_, slice_ds, zi=f_state)", "slice_ds, _ = signal.sosfilt(filter_, slice_ds, zi=f_state)")],
        '''
from pathlib import Path
import numpy as np
from shepherd_core import Writer
from shepherd_data import Reader
p = Path("a.h5").resolve()
n = 40_000
with Writer(p, compression=None) as w:
    for k in range(4):
        w.append_iv_data_raw(k * 10**8, np.full(n // 4, 1000, dtype="u4"), np.full(n // 4, 1000, dtype="u4"))
with Reader(p) as r:
    a = r.downsample(r.ds_voltage, None, ds_factor=10)
    r.max_elements = 10_000
    b = r.downsample(r.ds_voltage, None, ds_factor=10)
assert np.allclose(a, b), np.abs(a - b).max()
''')
    ELF = '''
import struct, sys, types
for m in ("socks", "serial"):
    sys.modules.setdefault(m, types.ModuleType(m))
from pathlib import Path
def make_elf(e):
    text, data = bytes(range(256)) * 4, bytes(64)
    offs = (0x100, 0x100 + len(text))
    body = bytes(0x100 - 52 - 64) + text + data
    sym = struct.pack(e + "IIIBBH", 0, 0, 0, 0, 0, 0) + struct.pack(e + "IIIBBH", 1, 0x20000010, 2, 0x11, 0, 2)
    strtab = b"\\0SHEPHERD_NODE_ID\\0\\0\\0"
    shstr = b"\\0.text\\0.data\\0.symtab\\0.strtab\\0.shstrtab\\0"
    o_sym = 52 + 64 + len(body)
    o_str = o_sym + len(sym)
    o_shs = o_str + len(strtab)
    body += sym + strtab + shstr
    body += bytes(-(52 + 64 + len(body)) % 4)
    o_sh = 52 + 64 + len(body)
    def sec(name, typ, fl, addr, o, size, link=0, info=0, ent=0):
        return struct.pack(e + "10I", shstr.index(name), typ, fl, addr, o, size, link, info, 4, ent)
    sh = bytes(40) + sec(b".text", 1, 6, 0x1000, offs[0], len(text)) + sec(b".data", 1, 3, 0x20000000, offs[1], len(data))
    sh += sec(b".symtab", 2, 0, 0, o_sym, len(sym), 4, 1, 16) + sec(b".strtab", 3, 0, 0, o_str, len(strtab)) + sec(b".shstrtab", 3, 0, 0, o_shs, len(shstr))
    ph = struct.pack(e + "8I", 1, offs[0], 0x1000, 0x1000, len(text), len(text), 5, 4)
    ph += struct.pack(e + "8I", 1, offs[1], 0x20000000, 0x20000000, len(data), len(data), 6, 4)
    ident = bytes([0x7F]) + b"ELF" + bytes([1, 2 if e == ">" else 1, 1]) + bytes(9)
    head = ident + struct.pack(e + "HHIIIIIHHHHHH", 2, 40, 1, 0x1000, 52, o_sh, 0, 52, 32, 2, 40, 6, 5)
    return head + ph + body + sh, offs[1] + 0x10
from shepherd_core import fw_tools
'''
    plant(
        "c19-id-byte-order", "C19",
        "a big-endian firmware",
        "the node ID is written with its bytes swapped",
        [(CORE + "fw_tools/patcher.py", "value_raw = value.to_bytes(length=uid_len_default, byteorder=elf.endian, signed=False)", "value_raw = value.to_bytes(length=uid_len_default, byteorder=\"little\", signed=False)")],
        ELF + '''
for e in "<>":
    raw, pos = make_elf(e)
    p = Path(f"fw{ord(e)}.elf").resolve()
    p.write_bytes(raw)
    out = fw_tools.modify_symbol_value(p, "SHEPHERD_NODE_ID", 0x1234)
    new = out.read_bytes()
    assert p.read_bytes() == raw
    assert new == raw[:pos] + struct.pack(e + "H", 0x1234) + raw[pos + 2:], e
    assert fw_tools.read_symbol(out, "SHEPHERD_NODE_ID") == 0x1234
''')
    plant(
        "c19-patched-name", "C19",
        "a firmware that is patched with several IDs without overwriting",
        "copies patched with different IDs overwrite each other",
        [(CORE + "fw_tools/patcher.py", 'file_elf.stem + "_" + str(value) + file_elf.suffix', 'file_elf.stem + "_" + str(value % 256) + file_elf.suffix')],
        ELF + '''
raw, pos = make_elf("<")
p = Path("fw.elf").resolve()
p.write_bytes(raw)
a = fw_tools.modify_symbol_value(p, "SHEPHERD_NODE_ID", 7)
b = fw_tools.modify_symbol_value(p, "SHEPHERD_NODE_ID", 7 + 256)
assert fw_tools.read_symbol(a, "SHEPHERD_NODE_ID") == 7
assert fw_tools.read_symbol(b, "SHEPHERD_NODE_ID") == 263
''')
    plant(
        "c05-defaults-dropped", "C05",
        "a model based on a database entry with a value that was set to the default of the class",
        "values that equal the default of the class are not stored, so the loaded model falls back to the database entry",
        [(CORE + "data_models/base/shepherd.py", "model_dict = self.model_dump(exclude_unset=minimal)", "model_dict = self.model_dump(exclude_unset=minimal, exclude_defaults=minimal)")],
        '''
from shepherd_core.data_models import VirtualSourceConfig
m = VirtualSourceConfig(name="BQ25504", C_intermediate_uF=0)
p = m.to_file("m.yaml")
n = VirtualSourceConfig.from_file(p)
assert n.C_intermediate_uF == m.C_intermediate_uF == 0, n.C_intermediate_uF
''')
    plant(
        "c11-custom-id-zero", "C11",
        "a target config with the custom ID 0",
        "the target gets its testbed-ID instead of its custom ID",
        [(CORE + "data_models/task/firmware_mod.py", "        if fw_id is None:\n", "        if not fw_id:\n")],
        '''
from shepherd_core.data_models import EnergyEnvironment, Experiment, Firmware, TargetConfig
from shepherd_core.data_models.task import TestbedTasks
from shepherd_core.data_models.testbed import Testbed
cfg = TargetConfig(target_IDs=[6, 8], custom_IDs=[1, 0], energy_env=EnergyEnvironment(name="SolarSunny"), firmware1=Firmware(name="nrf52_demo_rf"))
plan = TestbedTasks.from_xp(Experiment(name="xp", target_configs=[cfg]))
tb = Testbed()
got = {t: plan.get_observer_tasks(tb.get_observer(t).name).fw1_mod.custom_id for t in (6, 8)}
assert got == {6: 1, 8: 0}, got
''')
    plant(
        "c02-hundred-names", "C02",
        "a hundred recordings (or remains) that occupy the candidate names",
        "a writer fails although further names are free",
        [(CORE + "writer.py", "    while True:\n        path = Path(base_path)", "    while counter < 100:\n        path = Path(base_path)"),
         (CORE + "writer.py", "            return path\n        counter += 1\n", "            return path\n        counter += 1\n    msg = f\"No free name left for '{base_path}'\"\n    raise FileExistsError(msg)\n")],
        '''
from pathlib import Path
from shepherd_core import Writer
Path("a.h5").touch()
for k in range(100):
    Path(f"a.{k}.h5").touch()
with Writer(Path("a.h5").resolve(), compression=None) as w:
    pass
assert w.file_path.name == "a.100.h5", w.file_path
''')
    plant(
        "c03-cleared-early", "C03",
        "overwriting of an existing recording with arguments that get refused",
        "the recording is deleted although the open was refused",
        [(CORE + "writer.py", "            self._logger.info(\"Storing data to   '%s'\", self.file_path)\n", "            if force_overwrite:\n                self.file_path.unlink(missing_ok=True)\n            self._logger.info(\"Will store data to '%s'\", self.file_path)\n")],
        '''
from pathlib import Path
import numpy as np
from shepherd_core import Writer
p = Path("a.h5").resolve()
with Writer(p, compression=None) as w:
    w.append_iv_data_raw(0, np.zeros(10_000, dtype="u4"), np.zeros(10_000, dtype="u4"))
old = p.read_bytes()
try:
    Writer(p, mode="harvestor", force_overwrite=True)
except ValueError:
    pass
else:
    raise SystemExit("not refused")
assert p.exists() and p.read_bytes() == old
''')
    plant(
        "c06-first-end", "C06",
        "a directory with recordings of different lengths, extracted without an end mark",
        "recordings are cut at the length of one that came before",
        [(DATA + "cli.py", "                out_file = shpr.cut_and_downsample_to_file(start, end, ds_factor=ds_factor)", "                end = end or shpr.runtime_s\n                out_file = shpr.cut_and_downsample_to_file(start, end_s=end, ds_factor=ds_factor)")],
        '''
from pathlib import Path
import h5py
import numpy as np
from click.testing import CliRunner
from shepherd_core import Writer
from shepherd_data.cli import cli
def make(d, k, n):
    Path(d).mkdir(exist_ok=True)
    with Writer(Path(d).resolve() / f"{k}.h5", compression=None) as w:
        for j in range(10 * n):
            w.append_iv_data_raw(j * 100_000_000, np.full(10_000, 1000, dtype="u4"), np.full(10_000, 1000, dtype="u4"))
def lens(d):
    r = CliRunner().invoke(cli, ["extract", "--ds-factor", "20", str(Path(d).resolve())])
    assert r.exit_code == 0, r.output
    out = {}
    for x in Path(d).glob("*downsample*.h5"):
        with h5py.File(x, "r") as f:
            out[x.name] = len(f["data"]["time"])
    return out
# in one of these the shorter recording is listed first
for r, sizes in enumerate(({"a": 1, "b": 3}, {"a": 3, "b": 1})):
    want = {}
    for k, n in sizes.items():
        make(f"both{r}", k, n)
        make(f"alone{r}{k}", k, n)
        want.update(lens(f"alone{r}{k}"))
    got = lens(f"both{r}")
    assert got == want, (got, want)
''')
    plant(
        "c06-no-uart-ends", "C06",
        "a directory with a recording without uart-trace before others that have one",
        "the batch command ends at the first recording without uart-trace",
        [(DATA + "cli.py", "                if lines is None:\n                    continue", "                if lines is None:\n                    break")],
        '''
from pathlib import Path
import numpy as np
import yaml
from click.testing import CliRunner
from shepherd_core import Writer
from shepherd_data.cli import cli
Path("d").mkdir()
names = [f"r{k}" for k in range(6)]
for nm in names:
    with Writer(Path("d").resolve() / f"{nm}.h5", compression=None) as w:
        if nm in ("r1", "r4"):
            continue
        g = w.h5file.create_group("gpio")
        t, ts, vs = 1_000_000_000, [0], [1]
        for ch in b"hello world":
            level = 1
            for k, b in enumerate([0] + [ch >> j & 1 for j in range(8)] + [1]):
                if b != level:
                    ts.append(t)
                    vs.append(b)
                    level = b
                t += 104_167
            t += 20_000_000
        g.create_dataset("time", data=np.array(ts, dtype="u8"))
        g.create_dataset("value", data=np.array(vs, dtype="u2"))
        g["value"].attrs["description"] = yaml.safe_dump({0: {"name": "uart"}})
r = CliRunner().invoke(cli, ["extract-uart", str(Path("d").resolve())])
got = sorted(x.name for x in Path("d").glob("*.log"))
assert len(got) == 4, got
''')
    plant(
        "c07-backward-jump", "C07",
        "a recorder clock that steps back by two buffers between two buffers",
        "the step back looks like a regular step and is not reported",
        [(CORE + "reader.py", "diffs_np = np.unique(ds_time[1:] - ds_time[0:-1], return_counts=False)", "diffs_np = np.unique(np.abs(np.diff(ds_time.astype(\"int64\"))))")],
        '''
import numpy as np
from shepherd_core import Reader, Writer
n = 10_000
ms = 1_000_000
with Writer("a.h5", compression=None) as w:
    for t in (0, 100, 200, 300, 200, 300, 400):
        w.append_iv_data_raw((5000 + t) * ms, np.zeros(n, dtype="u4"), np.zeros(n, dtype="u4"))
with Reader("a.h5") as r:
    assert not r.check_timediffs()
''')
    plant(
        "c08-short-last-slice", "C08",
        "a recording whose length is no multiple of the internal slice",
        "statistics miss the end of the recording",
        [(CORE + "reader.py", "_calc_statistics(cal.raw_to_si(dset[i : i + self.max_elements])) for i in job_iter", "_calc_statistics(cal.raw_to_si(dset[i : i + self.max_elements]))\n            for i in job_iter\n            if i == 0 or dset.shape[0] - i > self.max_elements // 2")],
        '''
import numpy as np
from shepherd_core import Reader, Writer
with Writer("a.h5", compression=None) as w:
    for k in range(5):
        w.append_iv_data_raw(k * 100_000_000, np.full(10_000, 1000 * k, dtype="u4"), np.full(10_000, 1000, dtype="u4"))
with Reader("a.h5") as r:
    a = r._dset_statistics(r.ds_voltage)
    r.max_elements = 40_000
    b = r._dset_statistics(r.ds_voltage)
assert abs(a["max"] - b["max"]) < 1e-12 and abs(a["mean"] - b["mean"]) < 1e-9, (a, b)
''')
    plant(
        "c09-text-before-entry", "C09",
        "a fixture file with something else than an entry between its entries",
        "the entries behind it are missing from the database",
        [(CORE + "testbed_client/fixtures.py", "                if not isinstance(fixture, dict):\n                    continue", "                if not isinstance(fixture, dict):\n                    break")],
        '''
from pathlib import Path
from shepherd_core.testbed_client.fixtures import Fixtures
d = Path("db").resolve()
d.mkdir(parents=True)
(d / "a.yaml").write_text("- datatype: thing\\n  parameters:\\n    id: 1\\n    name: one\\n- just a note\\n- datatype: thing\\n  parameters:\\n    id: 2\\n    name: two\\n")
f = Fixtures(d)
assert sorted(f["thing"].keys()) == ["one", "two"], list(f["thing"].keys())
''')
    plant(
        "c10-reinsert-ignored", "C10",
        "an insert with the name of an existing entry",
        "the updated entry is found by its id but not by its name",
        [(CORE + "testbed_client/fixtures.py", "        self.elements_by_name[name] = data\n", "        self.elements_by_name.setdefault(name, data)\n")],
        '''
from shepherd_core.data_models.base.wrapper import Wrapper
from shepherd_core.testbed_client.fixtures import Fixture
f = Fixture("thing")
f.insert(Wrapper(datatype="thing", parameters={"id": 1, "name": "one", "val": 1}))
f.insert(Wrapper(datatype="thing", parameters={"id": 1, "name": "one", "val": 2}))
assert f["one"]["val"] == 2 and f[1]["val"] == 2, (f["one"], f[1])
''')
    plant(
        "c11-observer-prefix", "C11",
        "an observer that is not part of the experiment, whose name is the start of another observer's name",
        "the observer loads the tasks of another observer",
        [(CORE + "data_models/task/testbed_tasks.py", "            if observer == tasks.observer:", "            if tasks.observer.startswith(observer):")],
        '''
from shepherd_core.data_models import EnergyEnvironment, Experiment, Firmware, TargetConfig
from shepherd_core.data_models.task import TestbedTasks
from shepherd_core.data_models.testbed import Testbed
cfg = TargetConfig(target_IDs=[6, 8], energy_env=EnergyEnvironment(name="SolarSunny"), firmware1=Firmware(name="nrf52_demo_rf"))
plan = TestbedTasks.from_xp(Experiment(name="xp", target_configs=[cfg]))
assert plan.get_observer_tasks("sheep0") is None
for t in plan.observer_tasks:
    assert plan.get_observer_tasks(t.observer) is t
''')
    plant(
        "c12-direct-unlimited", "C12",
        "a source without storage whose input may be higher than the storage limit",
        "the voltage of the source exceeds its limit",
        [(CORE + "vsource/virtual_converter_model.py", "            self.V_mid_uV += dV_mid_uV\n\n        self.V_mid_uV = min(self.V_mid_uV, self._cfg.V_intermediate_max_uV)\n", "            self.V_mid_uV += dV_mid_uV\n            self.V_mid_uV = min(self.V_mid_uV, self._cfg.V_intermediate_max_uV)\n")],
        '''
from shepherd_core import CalibrationEmulator
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.vsource import VirtualSourceModel
cfg = VirtualSourceConfig(name="direct", V_intermediate_max_mV=3000)
src = VirtualSourceModel(cfg, CalibrationEmulator(), log_intermediate=False)
for _ in range(50):
    src.iterate_sampling(V_inp_uV=4_500_000, I_inp_nA=1_000_000, I_out_nA=0)
    assert src.cnv.V_mid_uV <= 3_000_000, src.cnv.V_mid_uV
''')
    plant(
        "c13-mixed-pair", "C13",
        "a constant-voltage tracker whose set-point is nearer to the previous sample of the curve",
        "the returned pair combines the voltage and current of different samples",
        [(CORE + "vsource/virtual_harvester_model.py", "                self.current_hold = self.current_last\n", "                self.current_hold = _current_nA\n")],
        '''
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models.content.energy_environment import EnergyDType
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.vsource import VirtualHarvesterModel
cfg = HarvesterPRUConfig.from_vhrv(VirtualHarvesterConfig(name="cv20", voltage_mV=2013), for_emu=True, dtype_in=EnergyDType.ivcurve, window_size=100, voltage_step_V=0.05)
h = VirtualHarvesterModel(cfg)
pairs = {(0, 0)}
for w in range(6):
    for k in range(100):
        v, i = 50_000 * k, 100_000 - 900 * k - w
        pairs.add((v, i))
        assert h.ivcurve_sample(v, i) in pairs, (w, k)
''')
    plant(
        "c14-cfg-remembers", "C14",
        "two harvesters that are created from one configuration after each other",
        "the second harvester starts at the set-point the first one ended with",
        [(CORE + "vsource/virtual_harvester_model.py", "            self.voltage_set_uV = int(self.voc_now * self._cfg.setpoint_n8 / 256)", "            self._cfg.__dict__[\"voltage_uV\"] = int(self.voc_now * self._cfg.setpoint_n8 / 256)\n            self.voltage_set_uV = self._cfg.voltage_uV")],
        '''
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models.content.energy_environment import EnergyDType
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.vsource import VirtualHarvesterModel
cfg = HarvesterPRUConfig.from_vhrv(VirtualHarvesterConfig(name="mppt_voc", interval_ms=10, duration_ms=2), for_emu=True, dtype_in=EnergyDType.ivcurve, window_size=50, voltage_step_V=0.1)
def go():
    h = VirtualHarvesterModel(cfg)
    return [h.ivcurve_sample(100_000 * (k % 50), max(0, 100_000 - 3_000 * (k % 50))) for k in range(4000)]
assert go() == go()
''')
    plant(
        "c15-step-unknown", "C15",
        "a recording of iv-curves with a voltage step that differs from the configured one",
        "the model is driven with the configured voltage step instead of the recording's own",
        [(CORE + "vsource/virtual_source_simulation.py", "        voltage_step_V=file_inp.get_voltage_step(),\n", "        voltage_step_V=file_inp.get_voltage_step() if file_inp.get_config() else None,\n")],
        '''
import logging
from pathlib import Path
import numpy as np
from shepherd_core import CalibrationHarvester, Reader, Writer
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.vsource import ResistiveTarget, simulate_source
import shepherd_core.vsource.virtual_source_simulation as sim
seen = []
real = sim.VirtualSourceModel
def spy(*a, **k):
    m = real(*a, **k)
    seen.append(m.hrv._cfg.voltage_step_uV)
    return m
sim.VirtualSourceModel = spy
n = 10_000
with Writer("in.h5", cal_data=CalibrationHarvester(), mode="harvester", datatype="ivcurve", window_samples=10, compression=None) as w:
    v = np.tile(np.arange(10) * 0.3, n // 10)
    w.append_iv_data_si(0.0, v, np.full(n, 1e-3))
with Reader("in.h5") as r:
    step = r.get_voltage_step()
simulate_source(VirtualSourceConfig(name="BQ25570"), ResistiveTarget(R_Ohm=1e4), Path("in.h5").resolve(), Path("out.h5").resolve())
assert abs(seen[0] * 1e-6 - step) < 1e-3, (seen, step)
''')
    plant(
        "c16-narrow-tolerance", "C16",
        "edge jitter of more than a twentieth of a bit",
        "characters get cut at slightly early or late edges",
        [(CORE + "decoder_waveform/uart.py", "off_tick = abs(steps - round(steps)) > 0.1", "off_tick = abs(steps - round(steps)) > 0.05")],
        '''
import random
import numpy as np
from shepherd_core.decoder_waveform import Uart
rng = random.Random(3)
tick = 1 / 9600
ev, t, level = [(0.0, 1)], 200 * tick, 1
text = "the quick brown fox jumps over the lazy dog 0123456789"
for ch in text.encode():
    for b in [0] + [ch >> j & 1 for j in range(8)] + [1]:
        if b != level:
            ev.append((t + rng.uniform(-0.04, 0.04) * tick, b))
            level = b
        t += tick
    t += 100 * tick
got = Uart(np.array(ev), baud_rate=9600).get_text()
assert got == text, got
''')
    plant(
        "c17-float-time", "C17",
        "timestamps of today (beyond the resolution of a float)",
        "timestamps of the waveform are off by some nanoseconds",
        [(CORE + "reader.py", "np.column_stack((gpio_ts[gpio_f], gpio_ps[gpio_f]))", "np.column_stack((gpio_ts[gpio_f].astype(float), gpio_ps[gpio_f]))")],
        '''
import numpy as np
import yaml
from shepherd_core import Reader, Writer
t0 = 1_700_000_000_123_456_789
with Writer("a.h5", compression=None) as w:
    g = w.h5file.create_group("gpio")
    g.create_dataset("time", data=np.array([t0, t0 + 1_001, t0 + 2_003], dtype="u8"))
    g.create_dataset("value", data=np.array([0, 1, 0], dtype="u2"))
    g["value"].attrs["description"] = yaml.safe_dump({0: {"name": "gpio0"}})
with Reader("a.h5") as r:
    wf = r.gpio_to_waveforms()["gpio0"]
assert [int(x) for x in wf[:, 0]] == [t0, t0 + 1_001, t0 + 2_003], wf
''')
    plant(
        "c18-error-session", "C18",
        "a server that answers the request for a session key with an error and a body that looks right",
        "the client takes the key out of the error message and counts as connected",
        [(CORE + "testbed_client/client_web.py", "            r = self._req.get(self._server + \"/session_key\", timeout=2)\n            r.raise_for_status()\n", "            r = self._req.get(self._server + \"/session_key\", timeout=2)\n")],
        '''
import json, threading
from http.server import BaseHTTPRequestHandler, HTTPServer
from shepherd_core.testbed_client.client_web import WebClient
class H(BaseHTTPRequestHandler):
    def do_GET(self):
        err = "session" in self.path
        body = json.dumps({"value": "busy"} if err else {"id": 1, "name": "joe", "description": "x", "group": "g", "email": "a@b.de", "active": True}).encode()
        self.send_response(503 if err else 200)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)
    def log_message(self, *a):
        pass
s = HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
try:
    WebClient(server=f"http://127.0.0.1:{s.server_port}", token="abc")
except Exception as e:
    ok = "503" in str(e)
else:
    ok = False
assert ok, "error of server was not noticed"
''')
    plant(
        "c21-past-by-wall-time", "C21",
        "a start time with the offset of another timezone",
        "start times are judged by their digits instead of the instant",
        [(CORE + "data_models/task/emulation.py", "        if has_time and self.time_start < time_now:", "        if has_time and self.time_start.replace(tzinfo=None) < time_now.replace(tzinfo=None):")],
        '''
import os, time
from datetime import datetime, timedelta, timezone
from pathlib import Path
os.environ["TZ"] = "UTC"
time.tzset()
from shepherd_core.data_models.task import EmulationTask
tz = timezone(timedelta(hours=9))
past = (datetime.now(tz=timezone.utc) - timedelta(hours=3)).astimezone(tz)
future = (datetime.now(tz=timezone.utc) + timedelta(hours=3)).astimezone(timezone(timedelta(hours=-9)))
EmulationTask(input_path=Path("a.h5"), time_start=future)
try:
    EmulationTask(input_path=Path("a.h5"), time_start=past)
except ValueError:
    pass
else:
    raise SystemExit("past start was accepted")
''')
    plant(
        "c23-newer-output", "C23",
        "an existing output that is older than the trace",
        "an existing output is replaced",
        [(DATA + "ivonne.py", "        if shp_output.exists():\n            self._logger.info(\"File already exists, will skip '%s'\", shp_output.name)\n            return\n\n        v_proto", "        if shp_output.exists() and shp_output.stat().st_mtime > self.file_path.stat().st_mtime:\n            self._logger.info(\"File already exists, will skip '%s'\", shp_output.name)\n            return\n\n        v_proto")],
        '''
import os
from pathlib import Path
import pandas as pd
from shepherd_data import ivonne
n = 20
pd.DataFrame({"time": [k / 50 for k in range(n)], "a": [1e-3] * n, "b": [1e-9] * n, "c": [5.0] * n}).to_pickle("t.iv", compression=None)
out = Path("o.h5").resolve()
out.write_bytes(b"mine")
os.utime(out, (1_000_000_000, 1_000_000_000))
with ivonne.Reader(Path("t.iv").resolve(), 50) as r:
    r.convert_2_ivcurves(out, pts_per_curve=100)
assert out.read_bytes() == b"mine"
''')
    plant(
        "c23-first-local-maximum", "C23",
        "a voltage limit below the maximum power point of the cell",
        "the tracker finds no maximum and returns no power",
        [(DATA + "mppt.py", 'lambda x: np.argmax(x["pcurve"]), axis=1', 'lambda x: np.argmax(np.diff(x["pcurve"]) < 0), axis=1')],
        '''
from pathlib import Path
import numpy as np
import pandas as pd
from shepherd_core import Reader
from shepherd_data import ivonne
n = 20
pd.DataFrame({"time": [k / 50 for k in range(n)], "a": [1e-3] * n, "b": [1e-9] * n, "c": [5.0] * n}).to_pickle("t.iv", compression=None)
with ivonne.Reader(Path("t.iv").resolve(), 50) as r:
    r.convert_2_ivsamples(Path("o.h5").resolve(), v_max=1.5)
with Reader("o.h5") as r:
    cal = r.get_calibration_data()
    p = cal.voltage.raw_to_si(np.array(r.ds_voltage)) * cal.current.raw_to_si(np.array(r.ds_current))
assert p.min() > 1.2e-3, p
''')
