"""Write MANIFEST.json from the list of checks (run by hand, not by a check)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NOTES = {
    "C01": "seeded histories on several solvers with callback faults; judged "
           "against a new solver in a new process and an independent "
           "integration of the documented equations; trusts that reference "
           "within 3e-4",
    "C02": "every fault site of a solve (all callbacks, start and any step of "
           "the integrator) sampled by call, location and kind; judged by "
           "cause reported, old solution whole, next solve equal to a twin's",
    "C03": "marches under drawn step lengths with up to 8 conditions, judged "
           "against root finding on the reference solution; tangent and "
           "near-coincident crossings are not judged",
    "C04": "work is counted by the simulated clock (function entries and "
           "backward jumps); a march which spends more than its budget is a "
           "violation; budget is 100 times that of the slowest normal march",
    "C05": "histories with refused and failing setters, judged against the "
           "same history without them",
    "C06": "set-up changes after a solve, judged against the answers of the "
           "solved configuration (or a refusal)",
    "C07": "seeded query schedules against one-at-a-time answers; owners' "
           "arrays are compared byte by byte",
    "C08": "real threads of the code under test under a seeded scheduler that "
           "decides every switch at byte code level inside ibl; C code of "
           "numpy and scipy is atomic in the model",
    "C09": "interrupts raised at a drawn byte code instruction or line inside "
           "the operation; then repeated and compared with an undisturbed "
           "twin",
    "C10": "permuted and repeated settings with refused ones in between, "
           "judged against construction from the final settings",
    "C11": "real parser and real text decoding over a simulated raw file; "
           "oracle is an independent reading of the bytes delivered",
    "C12": "real parser and real text decoding over a simulated raw file; "
           "oracle is an independent reading of the bytes delivered",
    "C13": "fault at every kind of place of a load; judged by what the reader "
           "still holds and by the next load",
    "C14": "every file object handed out is tracked; writes are reported by "
           "an audit hook",
    "C15": "faults in root finder and quadrature and drawn parameters; judged "
           "by residuals of the boundary value problem",
    "C16": "histories of parameter changes with faults; judged against twins "
           "of either the old or the new parameter",
    "C17": "seeded perturbation of the integrator's step sequence against the "
           "undisturbed march",
    "C19": "operations carried out from inside the user's functions against "
           "the same operations one after the other; settings and solves on "
           "the very solver that is calling are outside of the model",
    "C20": "marches cut at drawn places and by drawn events, continued from "
           "the state reported, against the march in one piece; tangent and "
           "near-coincident conditions are not judged",
    "C21": "everything handed out is kept and compared bit by bit after every "
           "later operation",
    "C22": "snapshot of process-wide state after every operation, interrupted "
           "ones included; half of the runs are repeated in another process "
           "state and compared",
    "C23": "single numbers of generated and shipped cases put off by 0.5 to "
           "100 tolerances, delivered by a simulated file system with faults; "
           "judged by differences computed from the bytes delivered",
    "C18": "interleaved operation transcripts of several objects against each "
           "one alone in its own process",
}
TECH = "deterministic simulation with fault injection: "
TECHS = {
    "C01": "seeded histories, fresh-process twin and reference model",
    "C02": "seeded callback and integrator faults, twin comparison",
    "C03": "seeded step schedules, reference solution as oracle",
    "C04": "seeded bad inputs under a simulated work clock",
    "C05": "seeded refused setters, twin comparison",
    "C06": "seeded set-up histories, answer-or-refuse oracle",
    "C07": "seeded query schedules, one-at-a-time oracle",
    "C08": "seeded byte-code-level thread scheduler, sequential oracle",
    "C09": "seeded interrupt injection at byte code level, twin comparison",
    "C10": "seeded setting orders, constructor twin",
    "C11": "simulated file system with read faults, content oracle",
    "C12": "simulated file system with read faults, content oracle",
    "C13": "simulated file system with faults, no-partial-state oracle",
    "C14": "simulated file system with faults, handle and write accounting",
    "C15": "seeded numerical faults, boundary value residuals",
    "C16": "seeded parameter histories with faults, twin comparison",
    "C17": "seeded step schedules of the integrator, twin comparison",
    "C18": "seeded operation interleavings, isolated twins",
    "C19": "seeded nesting of operations in user callbacks, flat twin",
    "C20": "seeded cuts and restarts with faults between, uncut twin",
    "C21": "seeded histories with faults, earlier answers re-examined",
    "C22": "seeded histories with faults and interrupts, process state "
           "snapshots and varied-process twin",
    "C23": "simulated file system with faults and replaced files, spoiled "
           "numbers, independent cross-checking as oracle",
}
NA = {
    "N01": "pure function of its arguments; no schedule, time, I/O or fault "
           "can change it, so a simulated run would decide nothing that "
           "calling it does not",
    "N02": "pure functions; input-output facts without any nondeterminism",
    "N03": "accuracy of a pure computation; the schedules that could disturb "
           "it (step sequences, histories) are C17 and C01",
    "N04": "algebraic identity of a pure computation",
    "N05": "algebraic identity of a pure function",
    "N06": "algebraic identity of a pure function",
    "N07": "comparison of two pure computations; no schedule or fault",
    "N08": "formatting of a value object; no schedule or fault",
}


def main():
    """Write the file."""
    checks = []
    rest = []
    for k in sorted(NOTES):
        if not os.path.exists(os.path.join(HERE, "sim", "props",
                                           k.lower() + ".py")):
            rest.append({"property": k, "reason": "check not built yet"})
            continue
        checks.append({
            "property": k,
            "quick_cmd": f"bash check.sh {k} --tier quick",
            "thorough_cmd": f"bash check.sh {k} --tier thorough",
            "technique": TECH + TECHS[k],
            "level": "exploration",
            "level_note": NOTES[k],
        })
    man = {"version": 1, "setup_cmd": "bash check.sh setup",
           "checks": checks,
           "not_applicable": rest + [{"property": k, "reason": NA[k]}
                                     for k in sorted(NA)],
           "notes": "No hooks in /repo were needed: the solvers already take "
                    "all of their environment through callables, and files, "
                    "locks, threads, the integrator's steps and the numerical "
                    "libraries are replaced inside the simulator's process."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
