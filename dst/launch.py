"""Builds what a check needs (the disk shim and the stand-in data file) into a folder of its own, then starts
the check with the shim preloaded.  Nothing here imports LEGWORK."""
import os
import shutil
import subprocess
import sys
import tempfile

from . import standin

FINE_GRID_USERS = ("C05", "C07", "C10", "C13", "C17", "C20")
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    build = tempfile.mkdtemp(prefix="legdst.")
    code = 2
    try:
        shim = os.path.join(build, "simdisk.so")
        subprocess.run(["gcc", "-O1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-builtin", "-w", "-shared",
                        "-fPIC", "-o", shim, os.path.join(HERE, "shim.c"), "-ldl"], check=True)
        standin.harmonics(os.path.join(build, "harmonics.npz"))
        if len(sys.argv) > 1 and sys.argv[1].upper() in FINE_GRID_USERS:
            standin.fine_grid(os.path.join(build, "peters_g.npy"))
        pkg = os.path.join(os.environ["DST_REPO"], "src", "legwork")
        redirects = []
        # the repository does not contain its two large data files (they are fetched when a release is made)
        for name in ("harmonics.npz", "peters_g.npy"):
            redirects.append("{}={}".format(os.path.join(pkg, name), os.path.join(build, name)))
        env = dict(os.environ, LD_PRELOAD=shim, SIMDISK_REDIRECT=";".join(redirects), DST_BUILD=build)
        code = subprocess.call([sys.executable, "-P", "-m", "dst.cli"] + sys.argv[1:], env=env)
    finally:
        shutil.rmtree(build, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
