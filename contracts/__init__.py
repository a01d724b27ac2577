"""Contracts for the functions of /repo/foronoi (sidecar: the repository files are not annotated)."""
from pyvc.engine import Registry
from .base import SCHEMA


def build():
    reg = Registry()
    reg.schema = SCHEMA
    from . import graph, nodes, tree, walks, polygon, circle, observers, beach, sweep, drawing
    for m in (graph, nodes, tree, walks, polygon, circle, observers, beach, sweep, drawing):
        m.register(reg)
    return reg
