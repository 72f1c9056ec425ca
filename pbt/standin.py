"""Stand-ins for functions of the code under test: they replace the function
in every module of src that knows it, whatever way it is imported."""
import contextlib
import importlib
import sys
import time


def modules():
    return [m for name, m in list(sys.modules.items())
            if m is not None and name.split('.')[0] == 'src']


@contextlib.contextmanager
def replaced(*pairs, where=None):
    "pairs: objects and their stand-ins"
    olds = []
    try:
        for mod in modules() if where is None else where:
            for name, value in list(vars(mod).items()):
                for old, new in pairs:
                    if value is old and not name.startswith('__'):
                        olds.append((mod, name, old))
                        setattr(mod, name, new)
                        break
        yield
    finally:
        for mod, name, old in reversed(olds):
            setattr(mod, name, old)


def find(module, name):
    "function of a module, None if there is no such function"
    return getattr(importlib.import_module(module), name, None)


def pairs(*triples):
    "pairs of the functions that exist, from (module, name, stand-in)"
    out = []
    for module, name, new in triples:
        old = find(module, name)
        if old is not None:
            out.append((old, new))
    return out


@contextlib.contextmanager
def abdalla(distance):
    "the sampled distance to the region of Abdalla, evaluated faster"
    with replaced(*pairs(('src.guidelines.ten_percent_rule_Abdalla',
                          'calc_distance_Abdalla', distance))):
        yield


def clock(new, where=None):
    "clocks of the modules"
    return replaced((time, new), *[(getattr(time, k), new) for k in (
        'time', 'perf_counter', 'monotonic', 'process_time')], where=where)
