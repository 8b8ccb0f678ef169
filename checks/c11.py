"""C11: axes, grids, interpolators and filling under AddressSanitizer and
UndefinedBehaviorSanitizer."""
import hostile
import vt

BORROWED = hostile.borrow(['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c24', 'c25', 'c09'])
vt.SECTIONS.clear()
from vt import section

FLAVOURS = ['asan']
RULE = ('A case is a series of calls of everything the extension exposes on axes, grids, interpolators and filling, with random arguments of every accepted '
        'type (sizes 0 to 400, any layout, extreme values, objects made by previous calls), or objects restored from damaged states, or cases of the '
        'behavioural checks, executed in the AddressSanitizer + UndefinedBehaviorSanitizer build. Non-trivial: at least one call was accepted.')
ASSUMES = ['intra-object overflows and reads of uninitialised memory are not seen by the sanitizers']


@section(700, 30000)
def calls(ctx, rng):
    hostile.run_fuzz(ctx, rng, 11, 60)


@section(1500, 40000)
def states(ctx, rng):
    hostile.run_states(ctx, rng, 11, 12)


@section(400, 8000)
def workloads(ctx, rng):
    hostile.run_borrowed(ctx, rng, BORROWED, 1, 4)
