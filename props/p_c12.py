"""Programs compiled for aarch64, run by the emulator."""
import crossprop
from crossprop import ASSUMPTIONS, gen, prepare, render  # noqa: F401

ID = 'C12'
N = {'quick': 7000, 'thorough': 200000}
BUILDS = ('aarch64',)
RULE = crossprop.RULE % 'aarch64'


def check(case, ctx):
    crossprop.target(ctx, 'aarch64')
    return crossprop.check(case, ctx)
