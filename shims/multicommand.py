"""Offline stand-in for multicommand.create_parser: merges the `parser`
objects of every module of a package tree into nested sub-parsers."""
import argparse
import importlib
import pkgutil


def _merge(root, sub):
    for a in sub._actions:
        if isinstance(a, argparse._HelpAction):
            continue
        root._add_action(a)
    root.set_defaults(**sub._defaults)


def _build(parser, pkg):
    subs = None
    for m in pkgutil.iter_modules(pkg.__path__):
        mod = importlib.import_module(pkg.__name__ + "." + m.name)
        name = m.name.rstrip("_").replace("_", "-") if False else m.name
        if subs is None:
            subs = parser.add_subparsers(description=" ")
        if m.ispkg:
            p = subs.add_parser(name, description=(mod.__doc__ or ""))
            _build(p, mod)
        elif hasattr(mod, "parser"):
            p = subs.add_parser(name, description=mod.parser.description)
            _merge(p, mod.parser)


def create_parser(pkg):
    root = argparse.ArgumentParser()
    _build(root, pkg)
    return root
