"""Process environment for simulated runs of fossilfree/numerous.

Must be imported before numpy / numba / numerous.  It pins everything outside
the program that could influence it (hash seed, thread counts, cache
directories) and puts the repository under test on sys.path.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")


def scratch_root():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    return base


def prepare():
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("MKL_NUM_THREADS", "1")
    os.environ.setdefault("NUMBA_NUM_THREADS", "1")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["TQDM_DISABLE"] = "1"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    # tqdm's default lock is a semaphore shared between processes: a scenario that is
    # killed while it holds it would block every other one
    import threading
    import tqdm
    tqdm.tqdm.set_lock(threading.RLock())


prepare()
