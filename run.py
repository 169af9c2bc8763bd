"""Entry point of every check:  /opt/venv/bin/python run.py <PROPERTY> [--replay FILE] [--only SUB] [--scale F]

The environment is normalised (threads, hash seed, no bytecode) by re-executing once.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    env = dict(os.environ, **WANT)
    env.pop("PYTHONPATH", None)
    exe = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execve(exe, [exe, "-W", "ignore"] + [os.path.join(HERE, "run.py")] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from vlib.runner import main, setup  # noqa: E402

if sys.argv[1:2] == ["--setup"]:
    sys.exit(setup())

sys.exit(main(sys.argv[1:]))
