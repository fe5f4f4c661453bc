"""M02: files enumerated by the model and larger random ones, loaded and judged by MeshLoad.Describes."""
import loadlib


def run(ctx):
    exe, scen = loadlib.run_load(ctx, "vtk3", 3, 200 if ctx.quick else 3000, 900 if ctx.quick else 20000)
    tr = ctx.replay(exe, scen, args=[ctx.build])
    ctx.validate("MeshLifeTrace", tr)
    if not ctx.violations:
        t = next(t for t in tr if t[1]["op"] == "load")
        def bad1(t): t[1]["m"]["nl"][0], t[1]["m"]["nr"][0] = t[1]["m"]["nr"][0] + 1, t[1]["m"]["nl"][0]
        def bad2(t): t[1]["m"]["l"][-1] = 1 - t[1]["m"]["l"][-1]
        ctx.binding_demo("MeshLifeTrace", t, bad1, name="walk")
        ctx.binding_demo("MeshLifeTrace", t, bad2, name="left cell")
    ctx.assumptions += ["files are well formed and conforming (a face has at most two cells)"]
