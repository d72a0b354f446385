"""Aggregates, pointers, arrays: generated programs against gcc."""
import cgprop
from cgprop import ASSUMPTIONS, RULE, prepare  # noqa: F401

ID = 'C03'
N = {'quick': 2400, 'thorough': 120000}
BUILDS = ('native',)
PROFILES = [
    dict(structs=85, unions=40, bitfields=60, anon=40, twod=50, goto=0, switch=5, flo=15),
    dict(structs=70, pointers=80, doubleptr=50, ptrdiff=50, addr_local=70, goto=0),
    dict(arrays=90, twod=70, pointers=60, structs=30, loops=50, goto=0),
    dict(bitfields=90, structs=80, unions=60, compound=50, goto=0, switch=0),
    dict(structs=80, structargs=80, calls=70, funcs=(3, 6), goto=0, compound=40),
    dict(globals_=(6, 14), structs=80, arrays=80, static_=60, strlit=40, goto=0),
    dict(structs=60, unions=90, flo=40, casts=40, goto=0),
]


def gen(src, ctx):
    return cgprop.gen(src, PROFILES)


def check(case, ctx):
    return cgprop.check(case, ctx)


def render(case):
    return case
