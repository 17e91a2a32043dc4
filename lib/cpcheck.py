"""Record feature-tracker runs and validate them against spec/CPTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
import cpcases as K
import vlib

def run(ctx, cases, exe=None, name="cp", np=None, chunks=8, **kw):
    exe = exe or ctx.build("cp")
    out = ctx.run_cases(exe, [c.line() for c in cases], name, np=np, chunks=chunks)
    recs = [c.merge(o) for c, o in zip(cases, out)]
    ctx.validate("CPTrace", recs, "Trace.cfg", name=name, **kw)

def builds(ctx):
    """the harness with and without GMP (integer fallback of the robust tests)"""
    with ThreadPoolExecutor(2) as p:
        a = p.submit(ctx.build, "cp")
        b = p.submit(lambda: ctx.build("cp", have=vlib.LEAN - {"FTK_HAVE_GMP"}))
        return a.result(), b.result()
