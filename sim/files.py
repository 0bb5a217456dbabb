"""Kinds of save targets, and saving and loading through them."""
import io
import os
from pathlib import Path

NAMES = ("model.npz", "model", "m.v2", "run.d/model", "run.d/m.1.npz", "npz", "model.npz.bak")


class Target:
    """One place to save to and load from, in one of many forms."""

    def __init__(self, ctx, root, files=True):
        c = self.ctx = ctx
        self.form = c.weighted([("str", 5), ("path", 3), ("file", 2), ("memory", 3)], "target")
        self.name = c.pick(NAMES, "name")
        self.compressed = c.chance(1, 2, "compressed")
        self.full = os.path.join(root, self.name)
        os.makedirs(os.path.dirname(self.full), exist_ok=True)
        self.stale = c.chance(1, 3, "stale")
        self.mem = None
        self.load_as = c.pick(("same", "same", "full", "other"), "load as")
        c.cover("target", self.form, self.name, self.compressed)
        c.ev("target", self.form, self.name, self.compressed, self.stale, self.load_as)

    def disk(self):
        """The file on disk this name stands for."""
        if self.form == "file" or self.full.endswith(".npz"):
            return self.full
        return self.full + ".npz"

    def save(self, obj):
        put = obj.save_compressed if self.compressed else obj.save
        if self.stale and self.form != "memory":
            # longer leftovers of an earlier file
            with open(self.disk(), "wb") as f:
                f.write(b"\x55" * 60000)
            self.ctx.count("overwrites")
        if self.form == "str":
            put(self.full)
        elif self.form == "path":
            put(Path(self.full))
        elif self.form == "file":
            with open(self.full, "wb") as f:
                put(f)
        else:
            self.mem = io.BytesIO()
            put(self.mem)

    def source(self):
        """What to hand to load."""
        if self.form == "memory":
            return io.BytesIO(self.mem.getvalue())
        if self.form == "file":
            return open(self.full, "rb")
        kind = self.form
        if self.load_as == "other":
            kind = "path" if kind == "str" else "str"
        name = self.disk() if self.load_as == "full" else self.full
        return name if kind == "str" else Path(name)

    def load(self, fn):
        src = self.source()
        try:
            return fn(src)
        finally:
            if hasattr(src, "close"):
                src.close()

    def bytes(self):
        if self.form == "memory":
            return self.mem.getvalue()
        with open(self.disk(), "rb") as f:
            return f.read()
