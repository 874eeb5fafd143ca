"""The interface a harness is written against (symbolic and concrete mode)."""
import json
import os
import shutil
import tempfile


class CheckFailed(BaseException):
    def __init__(self, msg, model=None, cond=None):
        super().__init__(msg)
        self.msg = msg
        self.model = model
        self.cond = cond


class Skip(BaseException):
    """this concrete assignment does not satisfy the harness's assumptions."""


class BaseCtx:
    symbolic = False
    route = None  # which concrete realisation a replay uses, see props/od.py

    def __init__(self):
        self._tmp = None
        self._ntmp = 0
        self.checks = 0

    def scratch(self, name=None):
        """fresh path inside a scratch directory removed after the path."""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="symx-", dir=os.environ.get("SYMX_TMP"))
        self._ntmp += 1
        return os.path.join(self._tmp, name or f"d{self._ntmp}")

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def hint(self, c):
        """prefer models with c when a counterexample is turned into inputs."""

    def flag(self, name):
        return self.choose(name, [False, True])


class ConcreteCtx(BaseCtx):
    """replays one assignment on the real package."""

    def __init__(self, values, choices):
        super().__init__()
        self.values = values
        self.choices = choices
        self.failures = []
        import numpy
        import pyarrow
        import pyarrow.compute

        self.np, self.pa, self.pc = numpy, pyarrow, pyarrow.compute

    def mod(self, name):
        import importlib

        return importlib.import_module("valor_lite" + ("." + name if name else ""))

    def real(self, name, lo=None, hi=None, dec=False):
        return float(self.values[name] if name in self.values else (lo or 0))

    def int(self, name, lo=None, hi=None):
        return int(self.values[name] if name in self.values else (lo or 0))

    def bool(self, name):
        return bool(self.values.get(name, False))

    def str(self, name):
        return str(self.values.get(name, ""))

    def text(self, name, n):
        return "".join(chr(self.values.get(f"{name}.{i}", 32)) for i in range(n))

    def json(self, o):
        return json.dumps(o)

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        # not reached on the symbolic path: any option is a legal input
        return options[self.choices.get(name, 0)]

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg=""):
        self.checks += 1
        if not c:
            raise CheckFailed(msg)

    def decide(self, c):
        return bool(c)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, engine, world):
        super().__init__()
        self.e = engine
        self.world = world
        self.np, self.pa, self.pc = world.np, world.pa, world.pc
        self.choice_idx = {}
        self.hints = []

    def hint(self, c):
        self.hints.append(c)

    def mod(self, name):
        return self.world[name]

    def real(self, name, lo=None, hi=None, dec=False):
        """dec: a value that is only stored and compared, so that replays may use 0.1, 0.7, ..."""
        return self.e.real(name, lo, hi, dec)

    def int(self, name, lo=None, hi=None):
        return self.e.int(name, lo, hi)

    def bool(self, name):
        return self.e.bool(name)

    def str(self, name):
        return self.e.str(name)

    def text(self, name, n):
        return self.e.text(name, n)

    def json(self, o):
        return self.world.mods["json"].dumps(o)

    def choose(self, name, options):
        options = list(options)
        if name in self.choice_idx:
            return options[self.choice_idx[name]]
        v = self.e.choose(name, list(range(len(options))))
        self.choice_idx[name] = v
        return options[v]

    def assume(self, c):
        self.e.assume(c)

    def check(self, c, msg=""):
        self.checks += 1
        if hasattr(c, "dtype") and not hasattr(c, "t"):
            c = bool(c)
        m = self.e.valid(c)
        if m is not None:
            raise CheckFailed(msg, m, c)

    def decide(self, c):
        """force a decision (fork) on c."""
        return bool(c)
