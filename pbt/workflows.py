"""Loads helper modules of /repo/workflows, with stand-ins for what is not installed here.

jinja2 and markupsafe (used by pandas only to render HTML) and seaborn (draws heat maps) are
missing from this sandbox.  The stand-ins let the real pandas Styler hold its data and let
heat maps be recorded instead of drawn."""

import importlib.util
import os
import sys
import types

from pbt import boot


def path(*parts):
    return os.path.join(boot.REPO, "workflows", *parts)


def load(name, *parts):
    """Imports a file under a private name, afresh."""
    spec = importlib.util.spec_from_file_location(name, path(*parts))
    module = importlib.util.module_from_spec(spec)
    sys.modules[name] = module
    spec.loader.exec_module(module)
    return module


def _available(name):
    try:
        return importlib.util.find_spec(name) is not None
    except (ImportError, ValueError):
        return False


class _Anything:
    def __init__(self, *args, **kwargs):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Anything()

    def __call__(self, *args, **kwargs):
        return _Anything()


def styler_stand_ins():
    if not _available("jinja2"):
        m = types.ModuleType("jinja2")
        m.__version__ = "3.1.2"
        m.PackageLoader = m.Environment = m.ChoiceLoader = m.FileSystemLoader = _Anything
        sys.modules["jinja2"] = m
    if not _available("markupsafe"):
        m = types.ModuleType("markupsafe")
        m.__version__ = "2.1.0"
        m.escape = lambda s: s
        sys.modules["markupsafe"] = m


def seaborn_stand_in():
    """Installs a recording seaborn; returns the list of recorded heat maps."""
    calls = []
    m = types.ModuleType("seaborn")

    def heatmap(data, *args, **kwargs):
        calls.append(dict(data=data, annot=kwargs.get("annot"), kwargs=kwargs))

    m.heatmap = heatmap
    sys.modules["seaborn"] = m
    return calls
