"""Scratch installs: the current /repo/sofar sources plus a catalogue."""
import os
import shutil

REPO = os.environ.get("SOFAR_REPO", "/repo")


def install(dest, catalogue=None, csv=True):
    """Copy the package sources into ``dest`` and add a catalogue."""
    pkg = os.path.join(dest, "sofar")
    shutil.copytree(
        os.path.join(REPO, "sofar"), pkg,
        ignore=shutil.ignore_patterns("__pycache__", "sofa_conventions",
                                      "*.pyc"))
    if catalogue is not None:
        catalogue.write(os.path.join(pkg, "sofa_conventions"), csv)
    return pkg
