"""Writes MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "streams consumed by caller threads under a seeded baton schedule, compared with a reference enumerator",
    "C02": "every package line is an observation point for the shared boards; answers compared with solo answers",
    "C03": "a fault raised at a chosen package line inside a call; touched boards and later answers compared with uncut calls",
    "C04": "find/apply/discard schedules over several boards, every effect compared with the reference solution set",
    "C05": "solver runs nested in and aborted from callbacks, bounded package lines, report replayed",
    "C06": "prescribed random source (including extreme streams) and threads; results judged by a reference solver",
    "C07": "one prescribed random stream replayed with several retry limits",
    "C08": "the same seeded plan in two processes with different hash seeds, history and calls in between",
    "C09": "whole shell sessions on simulated devices against a sequential model of sudoku, stack and loops",
    "C10": "the same script through every route and chunking, compared with each other and with the model",
    "C11": "failing commands and injected failures inside commands against the model",
    "C12": "Ctrl-C at every kind of point of a terminal session, answered by a reactive driver against a set of model states",
    "C13": "push/pop sessions with edits, failures, loops and interrupts against the model stack",
    "C14": "device failures on input, output and script files; prefix and reporting checks",
    "C15": "several shell sessions in threads under a seeded baton schedule, each judged alone",
    "C16": "game sessions against a model of history and moves",
    "C17": "arbitrary lines typed into the game against the same model",
    "C18": "iterators interleaved with edits, judged by the interval of each field's status",
    "C25": "rounds of calls, commands or game lines (cut, failing, abandoned, in threads) repeated many times; results, simulated lines and reachable objects compared between rounds",
    "C24": "histories of writes, copies and reads over related boards, cut or in threads, against a register model of every field",
}
NA = {
    "C19": "encode and decode are pure functions of their argument: no schedule, clock, I/O, randomness or fault can change the "
           "result, so simulation would only be input fuzzing; what the shell does with them is covered by C09-C14",
    "C20": "pure functions of strings and coordinates; nothing a simulator controls takes part (what the game does with them is in C16/C17)",
    "C21": "pure arithmetic on coordinates",
    "C22": "pure functions of a board nobody else touches; sharing, cutting and interleaving of these calls is in C02, C03 and C18",
    "C23": "pure formatting of a board; the shell and game checks read the printed boards back but do not judge the layout",
}
checks = []
for i in [k for k in range(1, 40) if "C%02d" % k in NOTE]:
    pid = "C%02d" % i
    if not os.path.exists(os.path.join(HERE, "dst", "props", pid.lower() + ".py")):
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "./check %s --tier quick" % pid,
        "thorough_cmd": "./check %s --tier thorough" % pid,
        "technique": "deterministic simulation with fault injection: " + NOTE[pid],
        "level": "exploration",
        "level_note": "Seeded search over schedules, inputs and faults of the real package under the kernel in dst/; no violation "
                      "in the explored runs, not a proof. Trusts CPython, dst/ref.py and the simulated devices; "
                      "thread switches happen at source lines of the package and at device operations.",
    })
claimed = {c["property"] for c in checks}
na = [dict(property=p, reason=r) for p, r in sorted(NA.items())]
for i in [k for k in range(1, 40) if "C%02d" % k in NOTE]:
    pid = "C%02d" % i
    if pid not in claimed:
        na.append(dict(property=pid, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the seams are the stream arguments, the interpreter's monitoring "
                     "events (PEP 669), module random and the standard streams."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
