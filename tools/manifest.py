#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitoring: reference-model monitor over recorded updates of random histories"
TWIN = "runtime monitoring: twin-execution monitor (differential oracle over recorded updates)"
CRASH = "runtime monitoring: crash, hang and overflow monitor under hostile workloads"
NOTE = ("Held on the executions explored (counts in the evidence file), with overflow and debug assertions "
        "of the code under test on. Trusts the monitor's model in harness/src and the stated assumptions.")
T = {
 "C01": (MODEL, NOTE),
 "C02": (MODEL, NOTE),
 "C03": (TWIN, NOTE + " Boxes are excused only when taffy itself, given the same history, gives the same stale box (KF2)."),
 "C04": (CRASH, NOTE + " A hang is 40 s of CPU time in one case; KF3 is recognised by the function it is stuck in."),
 "C05": (CRASH, NOTE + " Sizes are bounded (nesting up to 60, nesting of CSS functions up to 6)."),
 "C06": (MODEL, NOTE),
 "C07": (MODEL, NOTE),
 "C08": (MODEL, NOTE),
 "C09": (MODEL, NOTE),
 "C10": (MODEL, NOTE + " Linear timing only (the code knows no other); states whose kind depends on rounding are not judged until they settle."),
 "C11": (MODEL, NOTE + " Progress is judged to one percent, the resolution of keyframes."),
 "C12": (MODEL, NOTE + " The layout oracle is a fresh layout tree of the layout library built from the shown styles and texts."),
 "C13": (MODEL, NOTE), "C14": (MODEL, NOTE), "C15": (MODEL, NOTE), "C16": (MODEL, NOTE),
 "C17": (MODEL, NOTE),
 "C18": (TWIN, NOTE), "C19": (TWIN, NOTE + " Threads are real threads with injected yields."),
 "C20": ("runtime monitoring: counting allocator over cycles of updates, AddressSanitizer, LeakSanitizer, ThreadSanitizer, Miri",
         NOTE + " pest's stack guard is replaced by a stub in Miri, which cannot switch stacks."),
 "C21": (MODEL, NOTE), "C22": (MODEL, NOTE), "C23": (MODEL, NOTE),
 "C24": (TWIN, NOTE), "C27": (TWIN, NOTE), "C28": (TWIN, NOTE),
 "C25": (TWIN, NOTE), "C26": (TWIN, NOTE + " Every update sends the last move once more, so move handlers are not compared."),
}
NA = {
}
checks = [dict(property=k, quick_cmd=f"bash check.sh {k}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {k}",
               technique=t, level="exploration", level_note=n) for k, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in T],
         notes="No hooks: everything is observed through the public API.")
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
