"""Shrinks a failing case while the same class of violation stays."""
import copy
import time

from . import runner as R
from .scn import REG


def cls_of(viol, want):
    for c, m in viol:
        if c == want:
            return (c, m)
    return None


class Mini:
    def __init__(self, case, checks, viol, send, budget):
        self.checks, self.want = checks, viol[0]
        self.best, self.viol = case, viol
        self.send = send
        self.t_end = time.time() + budget
        self.last = None

    def try_(self, c):
        if time.time() > self.t_end:
            return False
        try:
            r = R.evaluate(c, self.checks, wall_cap=20.0)
        except R.Stuck:
            raise
        except BaseException:
            return False
        v = cls_of(r.viol, self.want)
        if v is None:
            return False
        self.best, self.viol, self.last = c, v, r
        self.send((c, v))
        return True

    # ---- passes; each returns True when something got smaller
    def structure(self):
        c = self.best
        out = False
        if len(c.get("variants") or []) > 1:
            for v in c["variants"]:
                d = copy.deepcopy(c)
                d["variants"] = [v]
                if self.try_(d):
                    out = True
                    break
        c = self.best
        for i in range(len(c.get("variants") or [])):
            for k in ("pre", "faults"):
                if self.best["variants"][i].get(k):
                    d = copy.deepcopy(self.best)
                    d["variants"][i][k] = []
                    out |= self.try_(d)
        for i in range(len(self.best["faults"]) - 1, -1, -1):
            d = copy.deepcopy(self.best)
            f = d["faults"].pop(i)
            if d.get("kind") == "crash" and f["kind"] == "crash":
                continue
            out |= self.try_(d)
        for i in range(len(self.best["groups"]) - 1, -1, -1):
            if len(self.best["groups"]) > 1:
                d = copy.deepcopy(self.best)
                d["groups"].pop(i)
                out |= self.try_(d)
        for gi in range(len(self.best["groups"])):
            j = len(self.best["groups"][gi]["prog"]) - 1
            while j >= 0:
                if len(self.best["groups"][gi]["prog"]) > 1:
                    d = copy.deepcopy(self.best)
                    d["groups"][gi]["prog"].pop(j)
                    out |= self.try_(d)
                j -= 1
        return out

    def schedule(self):
        out = False
        plain = {"strategy": "plain", "rdv": 0.0, "early": 0.0, "late": 0.0, "red": "fixed", "poison": "none"}
        c = self.best
        if any(c["sched"].get(k) != v for k, v in plain.items()):
            d = copy.deepcopy(c)
            d["sched"].update(plain)
            if self.try_(d):
                return True
        for k, v in plain.items():
            if self.best["sched"].get(k) != v:
                d = copy.deepcopy(self.best)
                d["sched"][k] = v
                out |= self.try_(d)
        return out

    def params(self):
        out = False
        for gi, g in enumerate(self.best["groups"]):
            for si, _ in enumerate(g["prog"]):
                progress = True
                while progress and time.time() < self.t_end:
                    progress = False
                    st = self.best["groups"][gi]["prog"][si]
                    sc = REG[st["s"]]
                    if not hasattr(sc, "shrink"):
                        break
                    for q in sc.shrink(copy.deepcopy(st["p"])) or ():
                        d = copy.deepcopy(self.best)
                        d["groups"][gi]["prog"][si]["p"] = q
                        if self.try_(d):
                            progress = out = True
                            break
        return out

    def trace(self):
        """the decisions of every job, as a sparse list; removes those that are not needed"""
        try:
            r = R.evaluate(self.best, self.checks, wall_cap=20.0)
        except BaseException:
            return
        forced = {str(k): [list(x) for x in t] for k, t in enumerate(r.traces)}
        d = copy.deepcopy(self.best)
        d["forced"] = forced
        if not self.try_(d):
            return
        for k in list(forced):
            self.ddmin(k)

    def ddmin(self, k):
        cur = self.best["forced"][k]
        n = 2

        def attempt(seq):
            d = copy.deepcopy(self.best)
            d["forced"][k] = seq
            return self.try_(d)
        if cur and attempt([]):
            return
        while len(cur) >= 2 and time.time() < self.t_end:
            size = max(1, len(cur) // n)
            done = False
            for i in range(0, len(cur), size):
                seq = cur[:i] + cur[i + size:]
                if attempt(seq):
                    cur = seq
                    n = max(n - 1, 2)
                    done = True
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(cur), n * 2)

    def run(self):
        if not self.try_(copy.deepcopy(self.best)):
            return
        for _ in range(4):
            a = self.structure()
            b = self.schedule()
            c = self.params()
            if not (a or b or c) or time.time() > self.t_end:
                break
        self.trace()


def minimise(case, checks, viol, send, budget):
    Mini(case, set(checks), tuple(viol), send, budget).run()
