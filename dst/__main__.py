"""Entry point: prepares the simulated environment (re-executes once with the OS seam preloaded)."""

import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent


def build_lib(dst: Path) -> None:
    src = VERIF / "native" / "libsim.c"
    if dst.exists() and dst.stat().st_mtime >= src.stat().st_mtime:
        return
    dst.parent.mkdir(exist_ok=True)
    tmp = dst.with_suffix(f".{os.getpid()}.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", str(tmp), str(src), "-ldl"], check=True)
    os.replace(tmp, dst)


def scratch_root() -> str:
    for base in ("/dev/shm", tempfile.gettempdir()):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > (1 << 30):
                return tempfile.mkdtemp(prefix="dst_", dir=base)
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="dst_")


def main() -> int:
    args = sys.argv[1:]
    if os.environ.get("DST_STAGE") != "2":
        so = VERIF / "build" / "libsim.so"
        build_lib(so)
        if args == ["--build"]:
            return 0
        scratch = scratch_root()
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "HOME": scratch, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
            "PYTHONHASHSEED": os.environ.get("DST_HASHSEED", "0"),
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPATH": os.pathsep.join([str(VERIF), *filter(None, [os.environ.get("DST_PATH")])]),
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
            "MPLBACKEND": "Agg", "PWNLIB_NOTERM": "1", "PWNLIB_SILENT": "1",
            "XDG_CACHE_HOME": scratch + "/cache", "MPLCONFIGDIR": scratch + "/mpl",
            "TMPDIR": scratch + "/tmp", "DST_SCRATCH": scratch + "/runs",
            "HDF5_USE_FILE_LOCKING": "TRUE",
            "DST_STAGE": "2", "DST_LIBSIM": str(so), "LD_PRELOAD": str(so),
        }
        for k in ("VERIF_SEED", "VERIF_TIER", "DST_RUNS", "DST_WORKERS", "DST_WALL", "DST_DEBUG", "DST_LOG", "DST_FAST"):
            if k in os.environ:
                env[k] = os.environ[k]
        for d in ("cache", "mpl", "tmp", "runs"):
            os.mkdir(f"{scratch}/{d}")
        try:
            return subprocess.run([sys.executable, "-m", "dst", *args], env=env, cwd=str(VERIF), check=False).returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    import logging

    import tqdm

    tqdm.tqdm.monitor_interval = 0
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    from . import core

    if args and args[0] == "--replay":
        return core.replay_file(args[1])
    if args and args[0] == "--digests":  # determinism proof: print digests of the first n runs
        mod = core.load_check(args[1])
        n = int(args[2])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        out = {}
        core.search(mod, args[1], seed, "quick", n, int(os.environ.get("DST_WORKERS", "8")), 3600, lambda i, r: out.__setitem__(i, r["digest"]))
        for i in sorted(out):
            print(i, out[i])
        return 0
    if args and args[0] == "--run":  # one run by index, verbose
        mod = core.load_check(args[1])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        sc = core.scenario_for(mod, args[1], seed, "quick", int(args[2]))
        res = core.run_isolated(mod, sc)
        import json

        print(json.dumps(sc, indent=1, default=str)[:6000])
        print("\n".join(res["events"]))
        print(res["viol"], res["err"], res["faults"], res["probes"])
        return 0
    return core.main_check(args[0], os.environ.get("VERIF_TIER", args[1] if len(args) > 1 else "quick"), int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    sys.exit(main())
