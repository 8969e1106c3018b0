"""Binding of the verified text to the code that runs: live functions -> AST of their definition in /repo's current
source, with a check that compiling that source gives the byte code of the live function object."""
import ast
import importlib
import os
import sys
import types
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'


def setup_path():
    for p in (SITE, os.path.join(REPO, 'tools'), REPO):
        if p in sys.path: sys.path.remove(p)
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')


class BindingError(Exception):
    pass


_files = {}


def _load(path):
    if path not in _files:
        with open(path, encoding='utf-8') as f: src = f.read()
        tree = ast.parse(src, path)
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n): c._parent = n
        codes = {}

        def walk(code):
            codes.setdefault((code.co_name, code.co_firstlineno), []).append(code)
            for c in code.co_consts:
                if isinstance(c, types.CodeType): walk(c)
        walk(compile(src, path, 'exec', dont_inherit=True))
        defs = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list: line = n.decorator_list[0].lineno
                defs.setdefault((getattr(n, 'name', '<lambda>'), line), []).append(n)
        _files[path] = (src, tree, codes, defs)
    return _files[path]


def _norm_consts(c):
    return tuple(_code_key(x) if isinstance(x, types.CodeType) else x for x in c)


def _code_key(code):
    return (code.co_code, _norm_consts(code.co_consts), code.co_names, code.co_varnames, code.co_freevars)


_bound = {}


def in_repo(fn):
    code = getattr(fn, '__code__', None)
    return code is not None and os.path.realpath(code.co_filename).startswith(os.path.realpath(REPO) + os.sep)


def node_of(fn):
    """AST node of a live repository function (checked against its byte code)"""
    if fn in _bound: return _bound[fn]
    code = fn.__code__
    src, tree, codes, defs = _load(code.co_filename)
    key = (code.co_name, code.co_firstlineno)
    for n, c in zip(defs.get(key, []), codes.get(key, [])):
        if _code_key(c) == _code_key(code):
            _bound[fn] = n
            return n
    raise BindingError('%s: the source in %s does not compile to the running code' % (fn.__qualname__, code.co_filename))


def class_of(fn):
    """enclosing class name (for name mangling) of a repository function"""
    n = getattr(node_of(fn), '_parent', None)
    while n is not None:
        if isinstance(n, ast.ClassDef): return n.name
        n = getattr(n, '_parent', None)
    return None
