"""C26: the Python API never crashes, whatever it is called with."""
import gc

import misuse
from wk import Violation

CASES = {"quick": 9000, "thorough": 200000}
RULE = ("one case = a session of up to 60 calls: every function, type, method and operator of the API, on objects which are initialised or not, re-initialised, iterated or exported, with "
        "arguments of every type, hostile ones whose special methods change the objects in use, lie or raise included; under ASan+UBSan the process must survive, "
        "and no call may return an error without an exception, or a result with one; non-trivial = at least ten calls returned or raised; distinct by the calls and outcomes")
MUST_OBSERVE = ("calls", "returned", "raised", "callbacks", "not_initialised")
MIN_EVAL = 500
CASE_S = 120


def case(i, r, T):
    s = misuse.Session(r, T)
    s.pool += [s.stored(), s.value()]
    try:
        done = s.run(r.choice([10, 30, 60]), Exception)
    except misuse.Broken as e:
        raise Violation("SystemError", "%s\nlast call %s" % (e, s.last))
    gc.collect()
    T.ev()
    T.count("calls", len(done))
    T.count("returned", sum(o == "ok" for _, o in done))
    T.count("raised", sum(o != "ok" for _, o in done))
    T.count("not_initialised", sum("subclass" in n for n, o in done))
    T.key(done)
    if i < 2:
        T.sample("%s" % (done[:12],))
