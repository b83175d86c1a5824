"""The Python counterpart of cpp/machine_main.cc: behaviours of a specification
replayed on /repo's Python code.

  driver.py BEHAVIOURS STATUS MACHINE
"""
import json
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "python"))


class Mismatch(Exception):
    """What the code does is not what the specification says"""


class Here:
    beh = step = steps = checks = 0


def variant(n, salt=0):
    """A stand-in for the randomness of how things are done"""
    return (Here.beh * 7919 + Here.step * 104729 + salt * 1299709) % n


def mismatch(what):
    raise Mismatch(what)


def check(cond, what):
    Here.checks += 1
    if not cond:
        mismatch(what)


def dump(x):
    return json.dumps(x, sort_keys=True)


def differs(want, got, path="", unordered=False):
    """Where the two differ, None if they do not. Empty functions and empty
    sequences are the same to TLC, entries called set_... have no order."""
    if isinstance(want, (list, dict)) and isinstance(got, (list, dict)) and not want and not got:
        return None
    say = "%s is %s instead of %s" % (path, dump(got), dump(want))
    if isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got):
            return say
        if unordered:
            return None if sorted(map(dump, want)) == sorted(map(dump, got)) else say
        for i, (a, b) in enumerate(zip(want, got)):
            r = differs(a, b, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(want, dict) and isinstance(got, dict):
        for k, v in want.items():
            if k.startswith("_"):
                continue
            if k not in got:
                return "%s.%s is missing" % (path, k)
            r = differs(v, got[k], "%s.%s" % (path, k) if path else k, k.startswith("set_"))
            if r:
                return r
        for k in got:
            if k not in want:
                return "%s.%s should not be there: %s" % (path, k, dump(got[k]))
        return None
    Here.checks += 1
    return None if want == got and type(want) == type(got) else say


def main(machines):
    fn, st, which = sys.argv[1:4]
    make = machines[which]
    states = {}
    status = os.open(st, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    n = 0
    with open(fn) as f:
        for line in f:
            if not line.strip():
                continue
            if line.startswith('{"id":'):
                d = json.loads(line)
                states[d["id"]] = d["state"]
                continue
            Here.beh, n = n, n + 1
            os.pwrite(status, b"%d 0            \n" % Here.beh, 0)
            try:
                m = make()
                try:
                    for Here.step, s in enumerate(json.loads(line), 1):
                        Here.steps += 1
                        act = s["act"]
                        want = states[s["s"]] if "s" in s else s["state"]
                        try:
                            res = m.perform(act)
                        except (Mismatch, DriverTrouble):
                            raise
                        except Exception as e:  # what the code under test does is to be judged
                            res = type(e).__name__ + ": " + str(e)[:200]
                        if "res" in act:
                            r = differs(act["res"], res, "result")
                            if r:
                                mismatch("%s in %s" % (r, dump(act)))
                        elif isinstance(res, str):
                            mismatch("%s in %s" % (res, dump(act)))
                        try:
                            got = m.observe(want)
                        except (Mismatch, DriverTrouble):
                            raise
                        except Exception as e:
                            import traceback
                            mismatch("%s: %s (%s) after %s" % (type(e).__name__, str(e)[:300],
                                                               "; ".join("%s:%d" % (os.path.basename(t.filename), t.lineno)
                                                                         for t in traceback.extract_tb(e.__traceback__)[-3:]), dump(act)))
                        r = differs(want, got)
                        if r:
                            mismatch("%s after %s" % (r, dump(act)))
                finally:
                    if hasattr(m, "close"):
                        m.close()
            except Mismatch as e:
                print("MISMATCH behaviour %d step %d: %s" % (Here.beh, Here.step, e))
                return 3
            except DriverTrouble as e:
                print("driver: behaviour %d step %d: %s" % (Here.beh, Here.step, e))
                return 2
    print("OK behaviours %d steps %d checks %d" % (n, Here.steps, Here.checks))
    return 0


class DriverTrouble(Exception):
    """Not the fault of the code under test"""
