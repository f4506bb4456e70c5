"""Class definitions used by C02 (a small file: the library reads it for its
name conflict messages)."""
from __future__ import annotations
import sys
import types as pytypes
from enum import Enum

NOFILE = pytypes.ModuleType('dst_nofile')
NOFILE2 = pytypes.ModuleType('dst_nofile2')
sys.modules['dst_nofile'] = NOFILE
sys.modules['dst_nofile2'] = NOFILE2


def f_node(g, v):
    from jsonclasses import jsonclass, types

    @jsonclass(class_graph=g)
    class Node:
        id: int = types.int.primary.required
        mark: int = types.int.default(v)
        leaves: list[Leaf] = types.listof('Leaf').linkedby('node')
    return Node


def f_leaf(g, v):
    from jsonclasses import jsonclass, types

    @jsonclass(class_graph=g)
    class Leaf:
        id: int = types.int.primary.required
        mark: int = types.int.default(v)
        node: Node = types.objof('Node').linkto
    return Leaf


def f_plain(g, v):
    from jsonclasses import jsonclass, types

    if v % 3 == 0:
        return other_plain(g, v)

    @jsonclass(class_graph=g)
    class Plain:
        id: int = types.int.primary.required
        mark: int = types.int.default(v)
        my_name: str
        kind: Kind = types.enum('Kind')
    return Plain


def other_plain(g, v):
    """The same class written at another place."""
    from jsonclasses import jsonclass, types

    class Plain:
        id: int = types.int.primary.required
        mark: int = types.int.default(v)
        my_name: str
        kind: Kind = types.enum('Kind')
    return jsonclass(Plain, class_graph=g)


def f_typed(g, v):
    """Same, but resolved from annotations alone."""
    from jsonclasses import jsonclass

    @jsonclass(class_graph=g)
    class Typed:
        id: int
        my_name: Optional[str]
        plain: Optional[Plain]
        kind: Optional[Kind]
    return Typed


def f_nosource(g, v):
    """A class whose source is not available (interactive, generated)."""
    from jsonclasses import jsonclass, types
    return jsonclass(type('NoSource', (), {
        '__module__': 'dst_nofile2' if v % 2 else 'dst_nofile',
        '__annotations__': {'id': 'int', 'mark': 'int'},
        'mark': types.int.default(v)}), class_graph=g)


def f_kind(g, v):
    from jsonclasses import jsonenum

    @jsonenum(class_graph=g)
    class Kind(Enum):
        A = 1
        B = 2
    return Kind


def f_color(g, v):
    from jsonclasses import jsonenum
    return jsonenum(Enum('Color', {'RED': 1, 'BLUE': 2},
                         module='dst_nofile2' if v % 2 else 'dst_nofile'),
                    class_graph=g)


def f_plain_enum(g, v):
    """An enum may carry the name of a class: separate names."""
    from jsonclasses import jsonenum

    @jsonenum(class_graph=g)
    class Plain(Enum):
        X = 1
    return Plain
