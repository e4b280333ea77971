"""The time conversions are turned into value graphs on compiler IR and compared
with their definitions in sa/ref/base.c."""
from .. import baseref

FUNCS = """timespec_cmp timespec_add timespec_sub timespec_from_ns timespec_to_ms
timespec_now timespec_sleep abstime_from_reltime_ns abstime_from_reltime_ms
abstime_to_reltime_ms_roundup convert_timespec""".split()


def check(ctx, rep):
    rep.rule("time", "sums, differences and conversions of times are exact, "
             "or an overflow is reported")
    baseref.check(ctx, rep, "time", FUNCS)
