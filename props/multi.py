"""Several processes on one file, killed processes, failing writes: ConcTrace.tla."""
from common import *
import gen_mp, mp
def fuzz(kind, quick, thorough):
    def gen(tier, seed):
        k = quick if tier == "quick" else thorough; a = seed * 100000 - 100000
        return [gen_mp.history(s, kind) for s in range(a, a + k)]
    return gen
def src(name, kind, q, t): return Source(name, "ConcTrace", fuzz(kind, q, t), runner=mp.runner)
TECH = "TLA+ specification of the store as shared by processes (linearisability): real processes are stepped from system call to system call through random schedules, and TLC searches every recorded history for instants at which the calls took effect"
NOTE = "Bounded: schedules are sampled. Processes stop only at system calls on the DSS file (nothing else is shared between them)."
PROPS = [
 Prop("L01", "Processes sharing a file", [src("schedules", "sched", 2500, 30000)], technique=TECH, note=NOTE, assumptions=["two or three processes, fourteen calls, every file opened by one process before the others; reads of a record which another process is changing at that moment are not judged (reads do not lock)"]),
 Prop("L02", "A killed process costs only the record it was changing", [src("killed", "crash", 2500, 30000)], technique=TECH, note=NOTE, assumptions=["killed between system calls (no torn writes, no power loss); the record being changed is afterwards only read"]),
 Prop("L03", "A failing write costs only the record being changed", [src("faults", "fault", 2000, 20000)], technique=TECH, note=NOTE, assumptions=["one or two failing write calls per history: no space, I/O error, or short write"]),
]
