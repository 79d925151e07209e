"""A scratch HOME, so that importing raytracing touches nothing real and does
not look for a newer version on the network."""
import atexit
import datetime
import json
import os
import shutil
import tempfile


def make():
    d = tempfile.mkdtemp(prefix="symx-home-")
    os.mkdir(os.path.join(d, ".config"))
    with open(os.path.join(d, ".config", "ca.dcclab.python.raytracing.json"), "w") as f:
        now = datetime.datetime.now().replace(microsecond=123456)
        json.dump({"lastVersionCheck": now.isoformat(), "mode": "silent"}, f)
    return d


def remove(d):
    if d.startswith(tempfile.gettempdir() + os.sep + "symx-home-"):
        shutil.rmtree(d, ignore_errors=True)
