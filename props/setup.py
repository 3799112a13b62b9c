"""a smoke test: the engine loads the library and reasons about it"""
from props.common import *


def tasks(tier):
    yield one(["first", ["lit", "a"], ["kw", "ab"], ["word", "b"]], 2)
