"""Running scripts of harness/apix.c."""
from .world import expect, sane


def run(ctx, lines, plan=(), env=None, crash_ok=False, **kw):
    ctx.write("script", "\n".join(lines).encode("latin1") + b"\n")
    r = ctx.run("apix", ["apix", "script"], plan=plan, env=env, **kw)
    sane(r)
    out = r.out.decode("latin1").split("\n")
    expect(r.exit == 0 and out[-2:] == ["done", ""], "the driver ended prematurely: %r" % out[-3:], r)
    return r, out[:-2]
