"""Walk everything reachable from a live object of the repository and report finished work still held there."""
import asyncio
import collections
import types

SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.FrameType, types.CodeType,
        types.GeneratorType, types.CoroutineType, int, float, str, bool, type(None), asyncio.AbstractEventLoop, asyncio.Future)


def reachable(root, stop=()):
    """yield (path, bytes) for every bytes value held in containers and repository objects"""
    seen = set()
    stack = [(root, type(root).__name__)]
    while stack:
        obj, path = stack.pop()
        if isinstance(obj, (bytes, bytearray)):
            yield path, bytes(obj)
            continue
        if isinstance(obj, SKIP) or id(obj) in seen or isinstance(obj, stop):
            continue
        seen.add(id(obj))
        if isinstance(obj, types.MethodType):
            stack.append((obj.__self__, path))
        elif isinstance(obj, dict):
            for k, v in list(obj.items()):
                stack.append((k, path + ".key"))
                stack.append((v, path + "[]"))
        elif isinstance(obj, (list, tuple, set, frozenset, collections.deque)):
            for v in list(obj):
                stack.append((v, path + "[]"))
        else:
            mod = type(obj).__module__ or ""
            if not (mod.startswith("scaled") or mod.startswith("asyncio") or mod.startswith("graphlib")
                    or mod.startswith("queue") or mod in ("collections", "builtins")):
                continue
            d = getattr(obj, "__dict__", None)
            if d:
                for k, v in list(d.items()):
                    stack.append((v, f"{path}.{k}"))
            for cls in type(obj).__mro__:
                for k in getattr(cls, "__slots__", ()) or ():
                    if isinstance(k, str) and hasattr(obj, k):
                        stack.append((getattr(obj, k), f"{path}.{k}"))


def find(root, wanted, stop=()):
    """wanted: dict bytes -> description. Returns [(path, description)]"""
    out = []
    for path, value in reachable(root, stop):
        if value in wanted:
            out.append((path, wanted[value]))
    return out
