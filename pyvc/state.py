"""State of the program that contracts do not describe: attributes beyond the declared ones, module globals and class
attributes that some function changes.  Values read from such places are unknown, so reading them is unsupported."""
import ast
import collections
import glob
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo") + "/src/pymantic"
CONTAINERS = (dict, list, set, collections.deque, bytearray)
MUTATORS = {"append", "add", "update", "setdefault", "pop", "popitem", "clear", "extend", "insert", "remove", "discard",
            "appendleft", "popleft", "sort", "reverse", "difference_update", "intersection_update", "move_to_end", "__setitem__", "__delitem__"}


class Info:
    def __init__(self):
        self.stored = set()      # attribute names assigned on any object
        self.class_stored = set()  # attribute names assigned on classes
        self.mut_attrs = set()   # attribute names whose value is changed in place
        self.mut_names = set()   # variable names whose value is changed in place
        self.rebound = set()     # names declared global in a function
        self.has_setattr = False


def scan():
    i = Info()
    for f in glob.glob(REPO + "/**/*.py", recursive=True):
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except (SyntaxError, UnicodeDecodeError):
            continue

        def target(t):
            """t is changed in place"""
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Attribute):
                own = isinstance(t.value, ast.Name) and t.value.id in ("self", "cls")
                i.mut_attrs.add((owner if own and owner else "*", t.attr))
            elif isinstance(t, ast.Name):
                i.mut_names.add(t.id)

        def store(t):
            if isinstance(t, ast.Attribute):
                i.stored.add(t.attr)
                v = t.value
                if isinstance(v, ast.Name) and (v.id == "cls" or v.id[:1].isupper()) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "type" \
                        or isinstance(v, ast.Attribute) and v.attr == "__class__":
                    i.class_stored.add(t.attr)
            elif isinstance(t, ast.Subscript):
                target(t.value)
        fns = []

        def visit(n, cname):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    fns.append((c, cname))
                visit(c, c.name if isinstance(c, ast.ClassDef) else cname)
        visit(tree, None)
        for fn, owner in fns:
            for n in ast.walk(fn):
                if isinstance(n, ast.Global):
                    i.rebound |= set(n.names)
                elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    store(n)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    target(n.func.value)
                elif isinstance(n, ast.AugAssign):
                    target(n.target)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        i.stored.add(n.args[1].value)
                        i.class_stored.add(n.args[1].value)
    return i


_info = None


def info():
    global _info
    if _info is None:
        _info = scan()
        _info.ids = {}
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("pymantic"):
                for k, v in list(vars(m).items()):
                    if k in _info.mut_names and isinstance(v, CONTAINERS):
                        _info.ids[id(v)] = k
    return _info


def check_global(name, v, glob_):
    """reason why the value of a module variable is not known, or None"""
    i = info()
    if name in i.rebound and str(glob_.get("__name__", "")).startswith("pymantic"):
        return f"module variable {name} is assigned by functions"
    if isinstance(v, CONTAINERS) and id(v) in i.ids:
        return f"module variable {name} is changed by functions"
    return None


def check_class_attr(name, v, cls=None):
    i = info()
    if name in i.class_stored:
        return f"class attribute {name} is assigned by functions"
    names = {"*"} | ({c.__name__ for k in [cls] + _subclasses(cls) for c in k.__mro__} if isinstance(cls, type) else set())
    if isinstance(v, CONTAINERS) and any((n, name) in i.mut_attrs for n in names):
        return f"class attribute {name} is changed by functions"
    return None


def _subclasses(cls):
    out = []
    for c in type.__subclasses__(cls) if isinstance(cls, type) else ():
        out += [c] + _subclasses(c)
    return out
