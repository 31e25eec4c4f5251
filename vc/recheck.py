"""second opinion on symbolic obligations: the same query, printed as SMT-LIB, to cvc5"""
import hashlib
import z3


class Cvc5:
    def __init__(self, limit=400):
        self.n = self.agree = self.unknown = 0
        self.seen = set()
        self.limit = limit

    def recheck(self, pc, neg, name):
        if self.n >= self.limit:
            return
        s = z3.Solver()
        for c in pc:
            s.add(c)
        s.add(neg)
        text = '(set-logic QF_AUFBV)\n' + s.to_smt2()
        h = hashlib.sha1(text.encode()).hexdigest()
        if h in self.seen:
            return
        self.seen.add(h)
        self.n += 1
        import cvc5
        sv = cvc5.Solver()
        sv.setOption('tlimit-per', '20000')
        p = cvc5.InputParser(sv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
        sm = p.getSymbolManager()
        r = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(sv, sm)
            if str(c).startswith('(check-sat'):
                r = o.strip() if isinstance(o, str) else str(o)
        if r == 'unsat':
            self.agree += 1
        elif r == 'sat':
            import engine
            raise engine.Fail(name, 'assert', 'cvc5 disagrees with z3: the obligation does not hold')
        else:
            self.unknown += 1

    def summary(self):
        return dict(queries=self.n, agree=self.agree, unknown=self.unknown)
