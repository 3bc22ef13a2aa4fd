# -*- coding: utf-8 -*-
"""Scratch folders for checks that work on files.

A check calls prepare() and cleanup() in the parent; every worker gets its
own folder below the common root.
"""

import os
import shutil
import tempfile

_root = None


def prepare(tier=None):
    global _root
    if _root is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _root = tempfile.mkdtemp(prefix="verif-", dir=base)


def cleanup():
    global _root
    if _root is not None:
        shutil.rmtree(_root, ignore_errors=True)
        _root = None


def folder():
    prepare()
    d = os.path.join(_root, str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def fresh(name="d"):
    """An empty folder."""
    d = os.path.join(folder(), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def put(data, name="f.csv"):
    """Write bytes to a file of the worker's folder, return its path."""
    path = os.path.join(folder(), name)
    with open(path, "wb") as fp:
        fp.write(data)
    return path


def get(path):
    with open(path, "rb") as fp:
        return fp.read()


def open_fds():
    """Paths below the worker's folder that are open in this process."""
    out = []
    d = folder() + os.sep
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if t.startswith(d):
            out.append(t)
    return out
