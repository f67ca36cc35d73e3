"""check.py <PROPERTY> [quick|thorough] : runs one check (see MANIFEST.json)."""
import os, sys, tempfile, importlib, traceback, shutil, atexit
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1"))
REPO = os.environ.get("VERIF_REPO", "/repo")
here = os.path.dirname(os.path.abspath(__file__))
home = tempfile.mkdtemp(prefix="verif_home_")
atexit.register(lambda p=os.getpid(): shutil.rmtree(home, ignore_errors=True) if os.getpid() == p else None)
os.environ.update(HOME=home, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                  PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", PYTHONPATH=REPO, PYTHONHASHSEED="0",
                  MPLCONFIGDIR=home, TMPDIR=home, JOBLIB_TEMP_FOLDER=home)
tempfile.tempdir = home
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, os.path.join(here, "lib"), os.path.join(here, "harness")]
import warnings
warnings.filterwarnings("ignore")
import logging
logging.disable(logging.CRITICAL)
os.chdir(home)
os.makedirs(os.path.join(here, "evidence", "replay"), exist_ok=True)
import vlib
try:        # once, before any worker is started (solcore creates files in HOME when it is first imported)
    import solcore, solcore.structure, solcore.state
    import rayflare.ray_tracing, rayflare.matrix_formalism, rayflare.textures
except Exception:
    traceback.print_exc()
ctx = vlib.Ctx(pid, tier, seed)
try:
    mod = importlib.import_module(pid.lower())
    mod.run(ctx)
    code = ctx.finish()
except vlib.Machinery as ex:
    print("MACHINERY FAILURE", ex)
    # violations already found are still reported
    code = ctx.finish() or 2
except Exception:
    traceback.print_exc()
    code = 2
    if ctx.violations:
        code = ctx.finish() or 2
sys.stdout.flush()
sys.exit(code)
