"""Programs compiled for riscv64, run by the emulator."""
import crossprop
from crossprop import ASSUMPTIONS, gen, prepare, render  # noqa: F401

ID = 'C11'
N = {'quick': 7000, 'thorough': 200000}
BUILDS = ('riscv64',)
RULE = crossprop.RULE % 'riscv64'


def check(case, ctx):
    crossprop.target(ctx, 'riscv64')
    return crossprop.check(case, ctx)
