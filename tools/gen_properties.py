"""Writes /verif/properties.jsonl (kept as a script only so the long texts stay editable)."""
import json
from pathlib import Path

C = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


prop(
    "C01", "A recording keeps exactly the samples appended, over any session history",
    "After any sequence of recording sessions on one file (create, append raw or SI data with scalar or per-sample timestamps in batches of any and even unequal lengths, store config / hostname / attributes, end normally or by an exception, reopen for modification), a reader sees exactly the accepted samples in order, in three datasets of equal length, cut at the end of each session to a whole number of 10'000-sample buffers when sampled at the default 100 kHz. "
    "A batch given with one start timestamp is spaced at the recording's true sample interval (10 us at default rate), also in later sessions on the same file. "
    "Mode, datatype, window size, calibration, hostname and stored config read back as last set, and reading by buffers of any size and range yields each stored sample exactly once and in order.",
    ["histories", "fault_sequences"],
    "every history of open/append/store/abort/reopen/read operations, batch sizes, timestamp forms, calibrations, compressions, and writer sessions interrupted by exceptions or disturbed by short writes / EINTR",
    "Tests write one fixed file per case and read a few attributes back; no test reopens a recording several times, interrupts a session, or checks sample-for-sample content over a history.",
    [C + "writer.py", C + "reader.py"],
    [("append_iv_data_raw / append_iv_data_si resize + write", C + "writer.py"), ("Writer.__exit__ aligns, refreshes stats, closes", C + "writer.py"), ("_refresh_file_stats derives sample interval and rate", C + "reader.py"), ("read_buffers", C + "reader.py")],
    [("data/time, data/voltage, data/current", "recorded raw samples", C + "writer.py")],
    ["Reader datasets, getters and read_buffers on the finished file", "the HDF5 file opened by plain h5py"],
)
prop(
    "C02", "Writers competing for a file name never touch each other's recording",
    "For any number of writer processes that open the same target path without permission to overwrite or modify, in any interleaving of their file-system steps and with any of them dying at any point, every writer that opens successfully gets a file of its own. "
    "No file that existed before a writer opened is changed or replaced by it, and every writer that finishes can read back exactly its own samples. "
    "A writer that is alone always succeeds, however many files or remains of dead writers occupy candidate names.",
    ["schedules", "crash_points", "histories"],
    "every interleaving of the writers' system calls on the shared directory, every crash point of a writer, every set of pre-existing files",
    "The unique-name test opens writers strictly one after another in a single process; a check-then-create race needs a particular interleaving of two processes.",
    [C + "writer.py"],
    [("unique_path() searches a free name", C + "writer.py"), ("Writer.__init__ creates the file", C + "writer.py")],
    [("directory entries of the target folder", "which recordings exist", C + "writer.py")],
    ["directory content and file content after all processes ended"],
)
prop(
    "C03", "Refused, failing or read-only opens leave existing recordings untouched",
    "Opening a writer with arguments it refuses (unknown mode, datatype not allowed for the mode, ivcurve without window size, invalid calibration or path type) leaves every existing recording with its previous content, whether it asked to modify, to overwrite or neither, and leaves no file behind at a path that was free. "
    "Opening and analysing files with a reader never changes a file. "
    "After a refused or failed open of either kind, including of damaged or truncated files and under read errors, the file is released: it can immediately be opened for writing again in the same process.",
    ["histories", "inputs", "fault_sequences"],
    "every sequence of valid opens, refused opens (each kind of bad argument x modify / overwrite / plain), reads, damaged files (truncated anywhere, non-HDF5, missing groups / datasets / attributes) and injected read errors",
    "Tests assert that the exception is raised, not what became of the file that existed before, nor whether the handle is released.",
    [C + "writer.py", C + "reader.py"],
    [("argument validation in Writer.__init__", C + "writer.py"), ("Reader.__init__ open / is_valid", C + "reader.py")],
    [("existing HDF5 file", "the user's recording", C + "writer.py")],
    ["content snapshot of the directory before/after", "immediate re-open in r+ mode"],
)
prop(
    "C04", "Exports are complete or absent, and a rerun ends like an undisturbed run",
    "Every export from a recording or IVonne trace (sample csv, log text, metadata yaml, waveform csv, uart log, cut / downsampled recording, plot image, ivcurve / ivsample / isc-voc conversion) that is interrupted by process death or a disk error (disk full, I/O error) at any point leaves at its documented output path either nothing or the complete result. "
    "Running the same export again afterwards without faults therefore ends with the same output as a run that was never disturbed, and that output carries every selected row with the recorded value. "
    "The source file is never altered.",
    ["crash_points", "fault_sequences", "histories"],
    "every exporter, every system call at which the process dies or the disk fails (ENOSPC, EIO, disk quota), short writes and EINTR, and any number of disturbed attempts before the clean one",
    "Tests run exports only on a healthy disk to completion; the skip-if-exists logic makes a leftover partial file permanent, which only a crash or full disk mid-export produces.",
    [D + "reader.py", D + "cli.py", D + "ivonne.py", C + "reader.py", C + "writer.py"],
    [("skip when output exists", D + "reader.py"), ("save_csv / save_log / cut_and_downsample_to_file / plot_to_file", D + "reader.py"), ("save_metadata / waveform_to_csv", C + "reader.py"), ("convert_2_ivcurves / _ivsamples / _isc_voc", D + "ivonne.py"), ("extract_uart", D + "cli.py")],
    [("output files next to the recording", "result handed to the user", D + "reader.py")],
    ["output paths after each attempt, compared with an undisturbed run and a reference rendering"],
)
prop(
    "C05", "Model files are replaced atomically and load back as the model that was stored",
    "Storing a model to a YAML file and loading it returns an equal model for every storable content, including time spans with fractions of a second, timestamps, paths, enums and nested models, under any local timezone (automatic values nobody set, like a fresh id or creation date, are not part of a minimal file). "
    "If the storing process dies or the disk fails at any point, a previously existing file holds afterwards the complete old or the complete new model, a fresh path holds the complete new model or nothing that loads, and no load ever returns a third model; a reader running concurrently sees old or new; when several threads or processes store to one path at once, one of their complete models stays. "
    "A file holding a model of another type is refused.",
    ["crash_points", "fault_sequences", "inputs", "schedules"],
    "every crash point, disk error and short write during to_file / schema_to_file, every interleaving with a concurrent loader, many model types and values",
    "Tests round-trip a few default models once on a healthy disk; none interrupts a write or uses sub-second durations.",
    [C + "data_models/base/shepherd.py", C + "data_models/base/wrapper.py"],
    [("ShpModel.to_file / from_file / schema_to_file", C + "data_models/base/shepherd.py"), ("yaml representers for timedelta, path, ip, uuid", C + "data_models/base/shepherd.py")],
    [("yaml model file", "configuration handed between users, server and observers", C + "data_models/base/shepherd.py")],
    ["from_file() in a fresh process after the fault"],
)
prop(
    "C06", "Batch commands treat every recording as if it were alone",
    "A batch command (validate, extract, extract-meta, extract-gpio, extract-uart, downsample, plot) over a directory with intact and damaged recordings produces for every intact file exactly the output files it produces when run on that file alone, in whatever order the directory is listed. "
    "Damaged files (truncated, empty, not HDF5, without data group or datasets, unreadable from the disk) are skipped without ending the batch. "
    "Validate exits non-zero exactly if at least one file can not be opened or its timestamps not be read, or is structurally invalid, or has time jumps.",
    ["fault_sequences", "inputs", "schedules"],
    "every mix and listing order of intact / damaged files, differing sample rates and lengths, nesting, command options, and injected read errors per file",
    "CLI tests run each command on one valid file or one valid directory; none has a damaged file in a batch, or files of differing sample rate.",
    [D + "cli.py", D + "reader.py", C + "reader.py"],
    [("per-file try/except loop", D + "cli.py"), ("path_to_flist", D + "cli.py"), ("exit code of validate", D + "cli.py")],
    [("loop variables shared over files", "must not carry over between files", D + "cli.py")],
    ["exit status and directory content after the command"],
)
prop(
    "C07", "Validation reports every time jump and every structural defect",
    "A recording taken at the nominal rate with a steady clock passes validation and the time check, whatever its start time and number of buffers (at least one). "
    "If the recorder's clock jumped (gap, repetition or step backwards of at least 6 % of a buffer) between any two buffers, or the buffers are spaced at another rate, the time check reports failure, wherever the jump is and however large the internal read slices are. "
    "A file lacking the data group, a dataset, mode, datatype, window size or calibration, or with a mode / datatype combination that is not allowed, is reported as invalid or refused on opening, never accepted, and the validity check itself never raises on a file that opens.",
    ["fault_sequences", "inputs", "configurations"],
    "every clock-fault schedule (kind, size, position, number) during recording, file length, start time, slice size, and every single or combined structural omission",
    "Tests validate intact files and a handful of hand-made broken ones; none places a time jump, and none uses more data than one internal slice.",
    [C + "reader.py"],
    [("check_timediffs / _data_timediffs", C + "reader.py"), ("is_valid", C + "reader.py")],
    [("data/time", "recorded clock", C + "writer.py")],
    ["return values of check_timediffs() and is_valid()"],
)
prop(
    "C08", "Analyses do not depend on how the recording is sliced while streaming",
    "Energy, per-dataset statistics (mean, min, max, standard deviation), time-step analysis and down-sampled or cut data of a recording are the same for every internal slice size and equal to computing them over the whole recording at once. "
    "Down-sampling by n keeps exactly every n-th sample time of the selected range and leaves constant signals constant after the filter settled; it yields the same number of entries for time, voltage and current. "
    "Running an analysis again, before or after any other analysis, returns the same result.",
    ["configurations", "histories", "inputs"],
    "every recording length, slice size, range, factor, calibration and order of analyses; short reads from the disk",
    "The internal slice is 40 s = 4 million samples; test files are shorter, so no test ever runs the multi-slice path.",
    [C + "reader.py", D + "reader.py"],
    [("max_elements loops in energy / _dset_statistics / _data_timediffs", C + "reader.py"), ("downsample with carried filter state", D + "reader.py"), ("cut_and_downsample_to_file", D + "reader.py")],
    [("max_elements", "slice size (tuning knob)", C + "reader.py")],
    ["returned values, compared with a direct numpy computation"],
)
prop(
    "C09", "The model database is the shipped one, whatever state the cache is in",
    "The database a process sees after start equals the content of the fixture files it was asked to load, whatever the state of the cache: absent, fresh, expired, dated in the future, truncated or otherwise unreadable, written by a process that died midway or is just writing it, or left by an earlier load of other files. "
    "Starting never fails because of the cache, also with a full or read-only cache disk and any system clock. "
    "With reset requested the cache content is ignored.",
    ["crash_points", "fault_sequences", "schedules", "histories"],
    "every sequence of process starts (observer and desktop role) with crashes and disk errors at every system call, clock jumps, cache corruption and concurrent starts",
    "Tests run with whatever cache the test host has (normally none); none crashes a process while the cache is written or moves the clock.",
    [C + "testbed_client/fixtures.py", C + "testbed_client/cache_path.py"],
    [("Fixtures.__init__ cache read / write", C + "testbed_client/fixtures.py"), ("file_older_than", C + "testbed_client/fixtures.py")],
    [("fixtures.pickle", "cached parse result", C + "testbed_client/fixtures.py")],
    ["content of Fixtures(...) in each started process"],
)
prop(
    "C10", "Queries and inserts on the database behave like a plain dictionary",
    "For any sequence and any interleaving of queries by name or id, model constructions, inheritance resolution, iteration (nested or from several threads) and inserts, every query returns what a plain dictionary of the inserted entries would return, and unknown entries are refused. "
    "No query, model construction or change a caller makes to a returned value alters what anyone else reads later. "
    "Every iterator visits each entry exactly once, independent of other iterators, and inheritance yields the base entry overlaid by the entry's own values, with cycles refused.",
    ["schedules", "histories"],
    "every operation history over several components and every thread interleaving at statement level",
    "Tests query single entries sequentially; shared iterator state and shared dictionaries only show under nesting, interleaving, or after a caller modified what it got.",
    [C + "testbed_client/fixtures.py", C + "testbed_client/client_abc_fix.py"],
    [("Fixture.insert / __getitem__ / __iter__ / inheritance / query_*", C + "testbed_client/fixtures.py"), ("FixturesClient", C + "testbed_client/client_abc_fix.py")],
    [("elements_by_name / elements_by_id", "stored entries", C + "testbed_client/fixtures.py")],
    ["return values against a dictionary model"],
)
prop(
    "C11", "All observers of an experiment get one consistent, complete plan",
    "However the system clock ticks or jumps while a plan is derived from an experiment, the plan has exactly one entry per selected target, naming the observer that hosts it, and all entries share one preparation time and one result directory, use pairwise distinct result and firmware files, the wiring's ports, and firmware with that target's own custom or testbed ID. "
    "A given future start time and duration are carried unchanged and preparation starts earlier by the testbed's lead time; a start that is already past on the deriving or loading machine's clock is refused. "
    "After storing the plan to a file, with its delivery delayed, repeated or torn, each observer loads exactly its own tasks, in the same order, or an error, never another observer's tasks or a partial set.",
    ["schedules", "configurations", "fault_sequences"],
    "every clock behaviour (tick per read, jump at the n-th read, skew between machines, timezone), target / custom-ID selection, and delivery fault",
    "Tests derive plans in well under a second with a steady clock, so a per-observer clock read never shows; they don't distribute plan files.",
    [C + "data_models/task/__init__.py", C + "data_models/task/testbed_tasks.py", C + "data_models/task/observer_tasks.py", C + "data_models/task/emulation.py", C + "data_models/task/firmware_mod.py", C + "data_models/task/programming.py", C + "data_models/experiment/experiment.py", C + "data_models/experiment/target_config.py"],
    [("TestbedTasks.from_xp / ObserverTasks.from_xp", C + "data_models/task/observer_tasks.py"), ("prepare_task / extract_tasks", C + "data_models/task/__init__.py"), ("start-time validation", C + "data_models/task/emulation.py")],
    [("time_start", "common start of all observers", C + "data_models/experiment/experiment.py")],
    ["fields of TestbedTasks and of the tasks an observer extracts"],
)
prop(
    "C12", "A virtual source obeys its energy balance, limits and hysteresis at every step",
    "For any configuration and any history of harvesting input and load current, including input loss, noise, overload and brown-out, the storage voltage changes per step by the balance of converted input power and drawn output power (incl. leakage and efficiency), never leaves its limits, and the output switches on, off and reports power-good only by its thresholds and check intervals. "
    "While off, no output voltage is delivered; while on, a regulated output delivers its set voltage if the storage suffices and otherwise the storage voltage less the drop. "
    "Accepted input voltage, current and conversion efficiency stay within the configured limits, and accumulated input and output energies equal the sum over steps. Simulated targets (resistor, diode, constant current, constant power) draw the current their parameters give for the voltage and power-good state they see, and nothing without voltage (other than a constant current).",
    ["histories", "configurations", "fault_sequences"],
    "every converter configuration (direct, diode+cap, boost, buck, boost-buck), calibration, and input / load history with faults",
    "Tests step fixed configurations through a few hand-picked points; hysteresis, interval counters and saturation depend on the whole preceding history.",
    [C + "vsource/virtual_converter_model.py", C + "vsource/virtual_source_model.py", C + "data_models/content/virtual_source.py"],
    [("calc_inp_power / calc_out_power / update_cap_storage / update_states_and_output", C + "vsource/virtual_converter_model.py"), ("iterate_sampling", C + "vsource/virtual_source_model.py"), ("ConverterPRUConfig.from_vsrc", C + "data_models/content/virtual_source.py")],
    [("V_mid, is_outputting, power_good, sample_count, startup drain", "converter state", C + "vsource/virtual_converter_model.py")],
    ["getters and outputs after each step, against a step-wise reference model"],
)
prop(
    "C13", "A virtual harvester only extracts what its input curve and algorithm allow",
    "For any stream of IV-curve samples, with source changes, dropouts and corrupted windows, an optimal tracker always returns a voltage-current pair that actually occurred in the stream within the last two windows and inside the voltage limits (or 0/0 while there is none), and no sample that came later had more power. "
    "Open-circuit and perturb-and-observe trackers keep their set-point within the configured voltage limits and move it only at their interval, perturb-and-observe onwards in its direction while power rises and back otherwise (unless stopped by a limit), and every algorithm without extrapolation returns only pairs taken from the stream; extrapolation never yields a negative voltage or current. "
    "Once the source is steady, the optimal tracker reaches the window's maximum power within three windows, open-circuit tracking (measuring shorter than its interval) the configured fraction of the open-circuit voltage within two intervals and three windows, and a constant-voltage harvester the curve point at its voltage.",
    ["histories", "configurations", "fault_sequences"],
    "every harvester configuration, window size, curve shape and history of source changes / dropouts",
    "Tests feed short constant curves and check that values are produced; lag, hold and interval logic depend on history and phase.",
    [C + "vsource/virtual_harvester_model.py", C + "vsource/virtual_harvester_simulation.py", C + "data_models/content/virtual_harvester.py"],
    [("ivcurve_2_cv / _mppt_voc / _mppt_po / _mppt_opt", C + "vsource/virtual_harvester_model.py"), ("HarvesterPRUConfig.from_vhrv", C + "data_models/content/virtual_harvester.py")],
    [("interval_step, age_now, age_nxt, voc/power candidates, set voltage", "tracker state", C + "vsource/virtual_harvester_model.py")],
    ["returned (V, I) pairs and set voltage after each step"],
)
prop(
    "C14", "Simulations running side by side do not influence each other",
    "Any number of virtual sources, harvesters, targets and calibrations stepped in one process, in any interleaving, created and dropped at any time, produce exactly the sequence each produces when it runs alone. "
    "Their shared configuration objects are not altered by running. "
    "Creating the same instance again and feeding the same inputs repeats the same outputs.",
    ["schedules", "histories"],
    "every interleaving of step calls of several instances in one thread and across threads at statement level",
    "Tests build one instance at a time; leaked class-level or config-level state needs two live instances and a particular order.",
    [C + "vsource/virtual_converter_model.py", C + "vsource/virtual_harvester_model.py", C + "vsource/virtual_source_model.py", C + "vsource/target_model.py"],
    [("instance state set in __init__", C + "vsource/virtual_converter_model.py"), ("PruCalibration residue", C + "vsource/virtual_converter_model.py")],
    [("negative_residue_nA, LUTs, cfg", "state that could be shared", C + "vsource/virtual_converter_model.py")],
    ["per-step outputs compared with an isolated run"],
)
prop(
    "C15", "File-to-file simulations conserve the stream and release their files",
    "Simulating a source or harvester from a recording drives the model with the recording's own datatype, window size and voltage step and produces an output recording with exactly the processed input's whole buffers, its timestamps in order, its energy equal to the returned value (within quantisation), and the same content whether or not an output file or internal monitoring was requested. "
    "It never changes the input recording. "
    "When reading, writing or the target fails midway, the error is raised, no file stays open (unless the output file itself can't be written), after read and target errors the whole buffers simulated so far form a readable recording, and repeating the simulation without faults gives the undisturbed result.",
    ["fault_sequences", "crash_points", "histories"],
    "every point of failure (target raising, read error, write error, disk full), recording length and calibration, target behaviour, repeated runs",
    "Tests run simulations to completion on a healthy disk and check that energy is positive.",
    [C + "vsource/virtual_source_simulation.py", C + "vsource/virtual_harvester_simulation.py", C + "vsource/target_model.py", C + "writer.py"],
    [("simulate_source / simulate_harvester", C + "vsource/virtual_source_simulation.py"), ("ExitStack closing both files", C + "vsource/virtual_source_simulation.py"), ("Writer.__exit__", C + "writer.py")],
    [("open HDF5 handles", "must be released on every path", C + "vsource/virtual_source_simulation.py")],
    ["returned energy, output file, re-open of both files in the same process"],
)
prop(
    "C16", "UART text survives the wire and the recorder as it was sent",
    "Any text sent over a UART line (characters as wide as the frame) and recorded as level changes decodes to the same characters in the same order, each with the time of its start bit, at any usual baud rate, for both polarities, with clock deviation up to 1 %, edge jitter (as long as each level inside a character stays within a tenth of a bit of whole bits), redundant events, and any pauses between characters, including none; with the baud rate given or at least 15 % single-bit levels, and the polarity given or a pause of more than 80 bits (both among the first 1000 level changes). "
    "Lines are cut after each CR, CRLF or LF without losing, duplicating or moving a character, and the text is the concatenation of the lines. "
    "Asking again gives the same result.",
    ["inputs", "fault_sequences"],
    "every text, baud rate, polarity, pause pattern, clock deviation, jitter and pattern of redundant recorder events",
    "Tests decode two recorded wave files and check a few lines of output.",
    [C + "decoder_waveform/uart.py", C + "reader.py"],
    [("get_symbols / get_lines / get_text", C + "decoder_waveform/uart.py"), ("detect_baud_rate / detect_inversion / _filter_redundant_states", C + "decoder_waveform/uart.py"), ("gpio_to_uart", C + "reader.py")],
    [("events_sig", "level changes with duration", C + "decoder_waveform/uart.py")],
    ["get_symbols(), get_lines(), get_text(), gpio_to_uart()"],
)
prop(
    "C17", "A GPIO waveform reproduces the recorded pin at every instant",
    "For any recorded history of multi-pin port states, the waveform extracted for each pin starts with the pin's first recorded state, contains only real changes in time order, and reconstructs the pin's recorded state at every recorded instant, regardless of the other pins and of redundant, repeated or lost entries. "
    "The pin is found by its described name. "
    "The exported csv holds the same waveform.",
    ["histories", "inputs", "fault_sequences"],
    "every port-state history, pin description, glitch / duplicate / dropped-event pattern",
    "Tests extract waveforms of one recorded file and check key presence.",
    [C + "reader.py", D + "cli.py"],
    [("gpio_to_waveforms / get_filter_for_redundant_states / get_gpio_pin_num", C + "reader.py"), ("waveform_to_csv", C + "reader.py")],
    [("gpio/time, gpio/value", "port history", C + "reader.py")],
    ["returned waveforms and csv content"],
)
prop(
    "C18", "The web client acknowledges only what the server confirmed",
    "Over any network behaviour (refused connection, timeout, lost request or response, error status, broken or foreign payload), connecting with the web client either ends connected with a session key and the server's user data, or raises and leaves the process working with the client it had before. "
    "Insert returns true only after the server answered success for exactly that model; otherwise it raises. "
    "The token and server the caller provided (text or file) are the ones used, every request is bounded by a timeout, and a new attempt after the fault ends succeeds.",
    ["fault_sequences", "histories", "schedules"],
    "every sequence of connects and inserts under message loss, delay, duplication, error status, malformed bodies, and partitions that heal",
    "Tests of the web client need a server and are skipped; no test simulates a network.",
    [C + "testbed_client/client_web.py", C + "testbed_client/client_abc_fix.py", C + "testbed_client/user_model.py"],
    [("WebClient.__init__ / _connect / _query_session_key / _query_user_data / insert", C + "testbed_client/client_web.py"), ("AbcClient.__init__ sets the global client", C + "testbed_client/client_abc_fix.py")],
    [("tb_client, _token, _server, _key, _user, _connected", "client state", C + "testbed_client/client_web.py")],
    ["requests seen by the simulated server, return values, global client"],
)
prop(
    "C19", "Firmware arrives unchanged or not at all",
    "Firmware embedded into a model, stored, transferred and extracted yields the same bytes and hash as the original file; embedded content damaged anywhere on the way is refused (ValueError) instead of being extracted, and a referenced file that changed since is reported as not matching its hash. Different firmwares extracted into one directory do not overwrite each other. "
    "Writing a node ID into a firmware changes only that symbol's two bytes, and reading it back returns the value; the source stays untouched unless overwriting was asked for. "
    "If the process dies, the disk fails or the conversion helper fails during extraction, patching or hex conversion, the destination holds the complete old content, the complete new content or nothing, and repeating the operation succeeds.",
    ["crash_points", "fault_sequences", "inputs"],
    "every firmware content, corrupted position, ID value, crash point and disk error, missing or failing helper process",
    "Tests convert a few fixture firmwares once on a healthy disk.",
    [C + "fw_tools/converter.py", C + "fw_tools/converter_elf.py", C + "fw_tools/patcher.py", C + "data_models/content/firmware.py"],
    [("file_to_base64 / base64_to_file / extract_firmware", C + "fw_tools/converter.py"), ("modify_symbol_value / read_symbol", C + "fw_tools/patcher.py"), ("Firmware hash validation / extract", C + "data_models/content/firmware.py"), ("elf_to_hex", C + "fw_tools/converter_elf.py")],
    [("firmware file on disk", "gets flashed to hardware", C + "fw_tools/converter.py")],
    ["bytes of the destination, raised errors"],
)
prop(
    "C20", "Taking an inventory succeeds and is truthful on a misbehaving host",
    "Collecting a host's inventory succeeds for any system clock (before boot time, just booted, jumping during the call), interface list, installed packages and helper program behaviour (missing, refused by the system, failing, hanging, odd output), never waits for a helper without limit, and reports the clock, host name, package versions, helper output and each interface's (ip, mac) as it saw them. "
    "Comparing inventories of several hosts never fails and warns exactly about hosts that run longer than 30 h, whose clock is more than 10 s off the earliest, and about packages whose versions differ. "
    "Several hosts may be affected at once or share a name. The csv export has one row per host with all fields, is complete or not there, and overwrites no other file.",
    ["fault_sequences", "configurations"],
    "every clock state, interface set, helper-process fault, and combination of host inventories",
    "Tests collect the inventory of the test host once.",
    [C + "inventory/__init__.py", C + "inventory/system.py", C + "inventory/python.py"],
    [("SystemInventory.collect", C + "inventory/system.py"), ("InventoryList.warn / to_csv", C + "inventory/__init__.py")],
    [("uptime, timestamp", "clock-derived fields", C + "inventory/system.py")],
    ["returned models, warnings and csv"],
)
prop(
    "C21", "Local time is right in every timezone and season",
    "The library's notion of local time agrees with the system's timezone rules at the current instant, for every timezone, in winter and summer, across daylight-saving switches and clock jumps: the offset is the one in force, and the instant is the true one. "
    "Timestamps written to log and csv exports, warnings and the header of model files name the true instant of the event in the zone's rules (that were in force at that instant). "
    "Start times of tasks given as number, text, date or naive date-time refer to the instant the user's zone assigns to them, survive storage, and are refused exactly if in the past.",
    ["configurations", "inputs", "schedules"],
    "every timezone rule set x current instant (winter, summer, around switches) x clock jump",
    "Tests run in the host's one timezone (UTC) at the present instant.",
    [C + "data_models/base/timezone.py", C + "data_models/task/emulation.py", C + "data_models/task/harvest.py", D + "reader.py"],
    [("local_tz / local_now", C + "data_models/base/timezone.py"), ("time_start conversion", C + "data_models/task/emulation.py"), ("timestamps in save_csv / save_log", D + "reader.py")],
    [("TZ, system clock", "environment", C + "data_models/base/timezone.py")],
    ["local_now(), task start times, exported timestamps, against zoneinfo"],
)
prop(
    "C22", "Log extraction yields every readable entry, even from damaged logs",
    "Exporting a log group writes one line per recorded entry in order, each with its timestamp (if wanted) and content, and an entry that cannot be read from the file is marked as faulty without affecting the others, whatever further datasets or sub-groups the group has. "
    "Counting and warning report exactly the entries at or above the given level, and list the first ones up to the limit. "
    "Damage in a log never prevents the samples or other logs from being read.",
    ["fault_sequences", "inputs"],
    "every log content, position and number of unreadable elements, group layout, level and limit",
    "Tests export logs of one intact file; the faulty-element path is never run.",
    [D + "reader.py", C + "reader.py"],
    [("save_log with per-element fallback / warn_logs", D + "reader.py"), ("count_errors_in_log", C + "reader.py")],
    [("sheep / kernel / ptp ... groups", "logs inside a recording", D + "reader.py")],
    ["log file, returned counts, log records"],
)
prop(
    "C23", "Converting an IVonne trace does not depend on chunking",
    "Converting a solar-cell trace to IV-curves, IV-samples or open/short-circuit data yields output with evenly spaced timestamps that covers the requested duration up to the last recorded instant (in whole 100 ms buffers), identical for every internal chunk size. "
    "At the recorded instants every produced voltage-current pair lies on the recorded cell's curve (or is its open-circuit voltage and short-circuit current) within quantisation, and in between the values stay between those of the neighbouring instants. "
    "Maximum-power tracking yields at the recorded instants no less power than any fixed voltage. Dark cells, short traces, any curve size, voltage limit and duration are converted without failing. An existing output is left alone and the input is never changed.",
    ["configurations", "inputs", "histories"],
    "every trace, duration, sample rate, tracker and chunk size",
    "Tests convert two sample traces with the default chunk size and check energies roughly.",
    [D + "ivonne.py", D + "mppt.py"],
    [("chunked conversion loops", D + "ivonne.py"), ("MPP trackers", D + "mppt.py")],
    [("max_elements", "chunk size (tuning knob)", D + "ivonne.py")],
    ["output recordings compared over chunk sizes and with the cell model"],
)
prop(
    "C24", "Unit conversion by calibration is invertible",
    "Converting raw values to SI units and back by any calibration returns the original raw value, scalar or array, and never leaves the unsigned raw range.",
    ["inputs"],
    "every calibration pair and raw value",
    "Tests convert a few values.",
    [C + "data_models/base/calibration.py"],
    [("CalibrationPair.raw_to_si / si_to_raw", C + "data_models/base/calibration.py")],
    [], ["return values"],
)
prop(
    "C25", "Configuration models accept only consistent content",
    "Every model instance that can be constructed satisfies its documented constraints (ranges, unique targets and observers, matching firmware and MCU), and inconsistent parameters are refused.",
    ["inputs"],
    "every parameter set of every model",
    "Tests try a handful of valid and invalid parameter sets per model.",
    [C + "data_models/experiment/experiment.py", C + "data_models/experiment/target_config.py", C + "data_models/testbed/testbed.py"],
    [("pydantic validators", C + "data_models/experiment/experiment.py")],
    [], ["ValidationError"],
)

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
    print(len(P), "properties")
