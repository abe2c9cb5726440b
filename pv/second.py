"""A second solver: every query z3 answers `unsat` (obligation discharged or branch pruned) is given to cvc5 too."""
import hashlib, time


class Second:
    def __init__(self, seconds, per_ms=5000):
        self.left, self.per = seconds, per_ms
        self.seen = set()
        self.count = {'confirmed': 0, 'no_answer': 0, 'not_asked': 0, 'contradicted': 0, 'cvc5_s': 0.0}

    def append(self, text):
        h = hashlib.sha256(text.encode()).digest()
        if h in self.seen:
            return
        self.seen.add(h)
        if self.left <= 0:
            self.count['not_asked'] += 1
            return
        t0 = time.time()
        r = self.ask(text)
        self.left -= time.time() - t0
        self.count['cvc5_s'] += time.time() - t0
        self.count[{'unsat': 'confirmed', 'sat': 'contradicted'}.get(r, 'no_answer')] += 1

    def ask(self, text):
        import cvc5
        try:
            sl = cvc5.Solver(cvc5.TermManager())
            sl.setOption('tlimit-per', str(self.per))
            ip = cvc5.InputParser(sl)
            ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + text, 'q')
            sm, r = ip.getSymbolManager(), None
            while True:
                cmd = ip.nextCommand()
                if cmd.isNull():
                    return r
                o = str(cmd.invoke(sl, sm)).strip()
                if o in ('sat', 'unsat', 'unknown'):
                    r = o
        except Exception:
            return None
