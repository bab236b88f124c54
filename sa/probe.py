"""Client programs: a few lines of Python, interpreted (never run) in the scope of the analysed class or module, so that a
protocol of several calls is analysed as one path set whatever helpers it goes through."""
import ast
import textwrap

from .repo import Func


def probe(module, src, cls=None):
    """a Func whose body is `src` (a def), placed in `module` (as a method of `cls`)"""
    node = ast.parse(textwrap.dedent(src)).body[0]
    for n in ast.walk(node):
        for ch in ast.iter_child_nodes(n):
            ch._parent = n
    return Func(node, module, cls)
