"""Loads code under test, library code and stubs into one execution's world."""
import builtins as nb
import importlib
import json
import os
import sys
import types

import core
import convert
import runtime
import stubs

NATIVE_OK = set(["__future__"])


class Program(object):
    """Converted code objects, shared by all paths of a process."""

    def __init__(self, dump):
        self.code = {}
        self.functions = {}
        self.errors = {}
        self.paths = {}
        for name, item in dump.items():
            tree = item["tree"]
            self.paths[name] = item["path"]
            if tree["_"] == "SyntaxError":
                self.errors[name] = tree["msg"]
                continue
            self.trees = getattr(self, "trees", {})
            self.trees[name] = item

    def get(self, name):
        if name in self.code:
            return self.code[name]
        if name in self.errors:
            raise SyntaxError(self.errors[name])
        item = self.trees[name]
        code, functions = convert.convert(item["tree"], item["path"], name)
        self.code[name] = code
        self.functions[name] = functions
        return code

    def has(self, name):
        return name in self.paths

    def is_package(self, name):
        return self.paths[name].endswith("__init__.py")


class StdLogger(object):
    def __init__(self, world):
        self.world = world

    def _log(self, *a, **k):
        self.world.log("logging", a, k)

    debug = info = warn = warning = error = critical = exception = _log

    def log(self, level, *a, **k):
        self.world.log("logging", a, k)

    def setLevel(self, *a):
        pass

    addHandler = setLevel


class World(object):
    """Everything one path can see: modules, clock, randomness, logs."""

    def __init__(self, program):
        self.program = program
        self.modules = {}
        self.builtins = runtime.make_builtins(self.import_)
        self.builtins["open"] = self.open_file
        self.builtins["file"] = self.open_file
        self.time_func = None
        self.random_func = None
        self.randint_func = None
        self.logs = []
        self.reactor = None
        self.files = {}
        self.plugins = []
        self.md5_func = None
        self.resolver = None
        self.socket_factory = None
        self.node_name = "node"
        self.sleep_func = None
        self.carbon_managers = []
        self.psutil_func = None
        self.log_func = None

    def get_reactor(self):
        if self.reactor is None:
            core.cur().unsupported("reactor used without a stand-in")
        return self.reactor

    def log(self, kind, args, kw):
        if self.log_func is not None:
            self.log_func(kind, args, kw)

    def std_logger(self):
        return StdLogger(self)

    def psutil(self, name, *a, **k):
        if self.psutil_func is None:
            core.cur().unsupported("psutil without a stand-in")
        return self.psutil_func(name, *a, **k)

    def open_file(self, name, mode="r", *a):
        key = runtime.rope.fix_text(name)
        if key not in self.files:
            raise IOError(2, "No such file or directory: " + key)
        return stubs.FakeFile(self.files[key])

    # -- modules ---------------------------------------------------------
    def new_module(self, name):
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        return m

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
        if stubs.has(name):
            m = self.new_module(name)
            stubs.build(self, name, m)
        elif self.program.has(name):
            m = self.new_module(name)
            if self.program.is_package(name):
                m.__path__ = [os.path.dirname(self.program.paths[name])]
                m.__package__ = name
            else:
                m.__package__ = parent
            m.__file__ = self.program.paths[name]
            try:
                exec(self.program.get(name), m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
        elif any(n.startswith(name + ".") for n in self.program.paths) or \
                stubs.is_package(name):
            m = self.new_module(name)
            m.__path__ = []
            m.__package__ = name
        else:
            raise ImportError("No module named %s" % name)
        if parent:
            setattr(self.modules[parent], name.rpartition(".")[2],
                    self.modules[name])
        return self.modules[name]

    def exists(self, name):
        return name in self.modules or stubs.has(name) or \
            self.program.has(name) or stubs.is_package(name) or \
            any(n.startswith(name + ".") for n in self.program.paths)

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        package = (globals or {}).get("__package__") or ""
        full = None
        if level and level > 0:
            base = package
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            full = base + ("." + name if name else "")
        elif package and self.exists(package + "." + name.split(".")[0]) \
                and not name.startswith("twisted"):
            full = package + "." + name
        else:
            full = name
        m = self.load(full)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and \
                        self.exists(full + "." + f):
                    self.load(full + "." + f)
            return m
        top = full.split(".")[0] if full == name else \
            full[:len(full) - len(name)] + name.split(".")[0]
        return self.modules[top]
