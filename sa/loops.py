"""Counted loops of an analysed function: induction variables, ranges, exits."""
from .flow import lit, mentions, neg, p_add, pretty, to_poly


class Loop:
    """phi ranges over lo..hi (inclusive terms), one step at a time, when regular."""

    def __init__(self, flow, head):
        self.flow = flow
        self.head = head
        self.node = flow.g.nodes[head]
        self.body = flow.loops[head]
        self.where = self.node.where
        self.test = None
        self.phi = None
        self.lo = self.hi = None
        self.dir = 0
        self.why = "no counted test"
        self.early = []      # branch/other edges leaving the loop besides the test
        self._find()

    def _find(self):
        fl, g = self.flow, self.flow.g
        n, seen = self.node, set()
        while n.id not in seen:
            seen.add(n.id)
            if n.kind in ("branch", "rtest"):
                break
            nx = [s for s, _ in n.succ]
            if len(nx) != 1 or nx[0].id not in self.body:
                break
            n = nx[0]
        exits = []
        for b in self.body:
            for s, lab in g.nodes[b].succ:
                if s.id not in self.body and s.id in g.live:
                    exits.append((g.nodes[b], lab, s))
        tests = [n] if n.kind in ("branch", "rtest") else []
        test = None
        for t in tests:
            if any(e[0] is t for e in exits):
                test = t
        if test is None and tests:
            # "a || b": goes on while either holds, leaves at the second test
            second = self._second(n, exits)
            if second is not None:
                return self._either(n, second, exits)
        if test is None:
            self.early = exits
            return
        self.test = test
        # leaving by an exception is not an early exit of the sweep
        self.early = [e for e in exits if e[0] is not test and e[2].kind not in ("xexit", "catch")
                      and not self._only_throws(e[2])]
        self.exit_succ = [e for e in exits if e[0] is test][0]
        cont = [lab for s, lab in test.succ if s.id in self.body]
        if not cont:
            return
        truth = cont[0][0] == "T"
        ranges = set()
        for st in fl.states(test):
            c = fl.cond_of(test, st)
            ranges.add(self._range(c if truth else neg(c)))
        if len(ranges) != 1:
            self.why = "several loop tests"
            return
        r = ranges.pop()
        if isinstance(r, str):
            self.why = r
            return
        self.phi, self.dir, self.lo, self.hi = r
        self.why = None

    def _second(self, n, exits):
        seen = {n.id}
        m = [s for s, lab in n.succ if lab and lab[0] == "F"]
        m = m[0] if len(m) == 1 else None
        while m is not None and m.id in self.body and m.id not in seen:
            seen.add(m.id)
            if m.kind == "branch":
                return m if any(e[0] is m and e[1][0] == "F" for e in exits) else None
            nx = [s for s, _ in m.succ]
            m = nx[0] if len(nx) == 1 else None
        return None

    def _either(self, n, m, exits):
        """Two counters moving in step through containers that are known to be of the same size."""
        fl = self.flow
        self.test = n
        e = [e for e in exits if e[0] is m][0]
        self.exit_succ = (n, e[1], e[2])
        self.early = [x for x in exits if x[0] is not m and x[2].kind not in ("xexit", "catch") and not self._only_throws(x[2])]
        self.early = [x for x in self.early if x[0] is not n]
        a = {self._range(fl.cond_of(n, st)) for st in fl.states(n)}
        b = set()
        facts = None
        for st in fl.states(m):
            b.add(self._range(fl.cond_of(m, st)))
            facts = st.facts if facts is None else facts & st.facts
        if len(a) != 1 or len(b) != 1 or any(isinstance(x, str) for x in a | b):
            self.why = "loop test is not a pair of counters"
            return
        a, b = a.pop(), b.pop()
        same = a[1:3] == b[1:3] and (a[3] == b[3] or any(
            f[0] == "cmp" and f[1] == "==" and p_add(p_add(f[2], f[3], -1), p_add(a[3], b[3], -1), k) == lit(0)
            for f in facts or () for k in (1, -1)))
        if not same:
            self.why = "the two counters may leave their containers at different times"
            return
        self.phi, self.dir, self.lo, self.hi = a
        self.why = None

    def _only_throws(self, n):
        """Every path from n ends in a throw of the function."""
        g = self.flow.g
        seen, st = set(), [n]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.kind == "exit":
                return False
            if len(seen) > 400:
                return False
            st.extend(s for s, _ in x.succ)
        return True

    def _ind(self, t):
        """The induction value of this loop inside t, if t is phi + constant."""
        d = to_poly(t)
        phis = [m for m in d if m and len(m) == 1 and m[0][0] == "phi" and m[0][1] == self.head]
        if len(phis) != 1 or d[phis[0]] != 1:
            return None
        ph = phis[0][0]
        rest = p_add(t, ph, -1)
        if rest[0] != "lit":
            return None
        return ph, rest[1]

    def _range(self, c):
        if c[0] != "cmp":
            return "loop test is not a comparison"
        op, a, b = c[1:]
        ia, ib = self._ind(a), self._ind(b)
        if (ia is None) == (ib is None):
            return "loop test has no counter"
        ph, k = ia or ib
        init, step = self.flow.loop_values(self.head, ph[2])
        strip = lambda v: v[2] if v is not None and v[0] == "iter" else v
        init = {strip(v) for v in init}
        step = {strip(v) for v in step}
        if len(init) != 1 or None in init:
            return "the counter has several starting values"
        i0 = init.pop()
        if not step:
            return "the loop body never completes"
        if step == {p_add(ph, lit(1))}:
            d = 1
        elif step == {p_add(ph, lit(-1))}:
            d = -1
        else:
            return "the counter does not move by one (%s)" % ", ".join(pretty(s) for s in step if s)
        bound = b if ia else a
        if mentions(bound, lambda x: x == ph):
            return "loop test compares the counter with itself"
        if d == 1 and ia:          # phi + k OP bound
            if op in ("<", "!="):
                return ph, 1, i0, p_add(p_add(bound, lit(k), -1), lit(-1))
            if op == "<=":
                return ph, 1, i0, p_add(bound, lit(k), -1)
        if d == 1 and ib and op == "!=":
            return ph, 1, i0, p_add(p_add(bound, lit(k), -1), lit(-1))
        if d == -1 and ib:         # bound OP phi + k
            if op in ("<", "!="):
                return ph, -1, p_add(p_add(bound, lit(k), -1), lit(1)), i0
            if op == "<=":
                return ph, -1, p_add(bound, lit(k), -1), i0
        if d == -1 and ia and op == "!=":
            return ph, -1, p_add(p_add(bound, lit(k), -1), lit(1)), i0
        return "the loop test runs against the counter"

    def offset(self, t):
        """t as phi + constant term: the constant (a term) or None."""
        if self.phi is None:
            return None
        d = to_poly(t)
        if d.get((self.phi,)) != 1:
            return None
        rest = p_add(t, self.phi, -1)
        if mentions(rest, lambda x: x == self.phi):
            return None
        return rest


    def sibling(self, ph):
        """Another counter of this loop moving in step with it: ph - phi (a term), or None."""
        if self.phi is None or ph[1] != self.head:
            return None
        init, step = self.flow.loop_values(self.head, ph[2])
        strip = lambda v: v[2] if v is not None and v[0] == "iter" else v
        init, step = {strip(v) for v in init}, {strip(v) for v in step}
        if len(init) != 1 or None in init or step != {p_add(ph, lit(self.dir))}:
            return None
        return p_add(init.pop(), self.lo if self.dir == 1 else self.hi, -1)


def loops(flow):
    return {h: Loop(flow, h) for h in flow.loops}
