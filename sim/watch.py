"""Scripts during which something is watched after every operation."""
from sim import script, seams
from sim.core import SimHang, Violation
from sim.props import c09, c18


def interrupts(rng, ops, p):
    """Let some operations be interrupted at a drawn point."""
    for op in ops:
        if rng.random() < p:
            op["hit"] = {"at": int(10**rng.uniform(0, 4.3)),
                         "exc": rng.choice(c09.EXCS)}
    return ops


def safe(stage, op):
    """Carry out an operation that is interrupted."""
    try:
        return stage.do(op)
    except (SimHang, Violation):
        raise
    except BaseException as exc:  # pylint: disable=broad-except
        return ("exc", type(exc).__name__, str(exc)[:200], [])


def play(world, plan, root, watch):
    """Carry out the operations; watch(stage, op, result) after each."""
    stage = script.Stage(world, plan, root)
    seam = [seams.IntegratorSeam(world), seams.SimilaritySeam(world)]
    if any(op["k"] == "sim" and op.get("faults") for op in plan["ops"]):
        for s in seam:
            s.install()
    pts = c09.Points(world)
    watch(stage, None, None)
    out = []
    for op in plan["ops"]:
        f = op.get("faults", []) if op["k"] == "sim" else []
        seam[0].arm([x for x in f if "where" not in x])
        seam[1].arm([x for x in f if "where" in x])
        hit = op.get("hit")
        if hit:
            res = pts.interrupt(lambda op=op: safe(stage, op), hit["at"],
                                hit["exc"])
        else:
            res = stage.do(op)
        for s in seam:
            s.arm([])
        world.log(c18.party(op), op.get("op", op.get("do")),
                  None if res is None else res[:2])
        out.append((c18.party(op), None if res is None else list(res[:2])))
        watch(stage, op, res)
    return stage, out
