"""Process-wide isolation. Import before litdata (run.py does)."""
import os, sys, tempfile, time as _time, shutil, atexit

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)

def _mk_root():
    for base in ("/dev/shm", tempfile.gettempdir(), "/tmp"):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > (2 << 30) and os.access(base, os.W_OK):
                return tempfile.mkdtemp(prefix="vf.", dir=base)
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="vf.")

ROOT = _mk_root()
_OWNER = os.getpid()

def _cleanup():
    if os.getpid() == _OWNER:
        shutil.rmtree(ROOT, ignore_errors=True)
atexit.register(_cleanup)

def isolate(path):
    """Point every location litdata may write to by default into `path`."""
    os.makedirs(path, exist_ok=True)
    for k, sub in (("HOME", "home"), ("TMPDIR", "tmp"), ("DATA_OPTIMIZER_CACHE_FOLDER", "opt_cache"),
                   ("DATA_OPTIMIZER_DATA_CACHE_FOLDER", "opt_data"), ("XDG_CACHE_HOME", "xdg"), ("HF_HOME", "hf")):
        d = os.path.join(path, sub)
        os.makedirs(d, exist_ok=True)
        os.environ[k] = d
    tempfile.tempdir = os.environ["TMPDIR"]

for k in list(os.environ):
    if k.startswith(("DATA_OPTIMIZER_", "LIGHTNING_", "WORLD_SIZE", "GLOBAL_RANK", "NNODES", "NODE_RANK", "AWS_", "PL_")):
        del os.environ[k]
os.environ.update(HF_HUB_OFFLINE="1", TRANSFORMERS_OFFLINE="1", CUDA_VISIBLE_DEVICES="", AWS_EC2_METADATA_DISABLED="true",
                  OMP_NUM_THREADS="1", POLARS_MAX_THREADS="1", TQDM_DISABLE="1", DISABLE_S5CMD="1", PYTHONHASHSEED="0",
                  AWS_DEFAULT_REGION="us-east-1", RAYON_NUM_THREADS="1")
isolate(os.path.join(ROOT, "base"))

real_sleep, real_time = _time.sleep, _time.time
SLEEP_CAP = 0.0005
def _short_sleep(s=0, *a):
    real_sleep(min(s, SLEEP_CAP) if s > 0 else 0)
def shorten_sleeps():
    """Waiting loops of litdata poll much faster; timeouts measured with time.time() are unaffected."""
    _time.sleep = _short_sleep
shorten_sleeps()

sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")
import requests
def _no_net(*a, **k):
    raise requests.exceptions.ConnectionError("no network in verification")
requests.get = _no_net

# optimize and map wait for free disk space before they download: what happens may not depend on this machine's disk.
DISK = [1 << 50]
shutil.disk_usage = lambda path: shutil._ntuple_diskusage(1 << 51, (1 << 51) - DISK[0], DISK[0])
