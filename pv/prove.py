"""prove.py list PROP | prove PROP NAME TIER SECONDS OUT.json | debug PROP NAME [UNROLL]"""
import sys, os, json, time, warnings, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')


def contracts():
    from pv import spec
    import importlib
    d = os.environ.get('PV_CONTRACTS') or os.path.join(HERE, 'contracts')
    sys.path.insert(0, d)
    spec.CONTRACTS.clear()
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_') and f != 'common.py':
            m = importlib.import_module(f[:-3])
    out = []
    for c in spec.CONTRACTS:
        out.append((c, c.fn.__module__))
    return out


def again(work, trace, full, pos):
    """explore again from position pos of the path `full` (whose prefix `trace` was asked for)"""
    if len(trace) <= pos:
        return work + [trace]
    pre = full[:pos]
    return [w for w in work if len(w) < pos or any(x is not y for x, y in zip(w, pre))] + [pre]


class Explorer:
    def __init__(self, c, modname, seconds, unroll=None, timeout_ms=8000, maxpaths=20000):
        from pv import core
        self.c, self.mod = c, modname
        self.st = core.State(timeout_ms=timeout_ms, unroll=unroll)
        self.st.covered = set()
        self.deadline = time.time() + seconds
        self.st.deadline = self.deadline
        self.unsupported = []
        self.maxpaths = maxpaths
        self.verbose = False

    def path(self, trace, infer=False):
        from pv import core, rt, loader, sym
        st = self.st
        core.set_state(st)
        st.begin(list(trace))
        st.infer = infer
        st.extract = sym.extract
        st.stats['paths'] += 1
        why = None
        try:
            m = loader.import_module(self.mod)
            env = sym.SEnv()
            fn = m.__dict__[self.c.fn.__name__]
            fn(env)
            why = 'end'
        except core.PathEnd as e:
            why = 'pathend %s' % e
        except core.Restart:
            raise
        except core.NeedInfer:
            raise
        except core.Unsupported as e:
            why = 'unsupported %s' % e
            if not infer:
                self.unsupported.append(str(e))
            if self.verbose and (not infer or self.verbose > 1):
                traceback.print_exc()
        except RecursionError as e:
            infer or self.unsupported.append('recursion')
            if self.verbose:
                traceback.print_exc(limit=-30)
            why = 'recursion'
        except core.EngineSignal:
            raise
        except Exception as e:
            try:
                rt.check_exc(e)
                if infer:
                    return 'left by an exception'
                if self.verbose:
                    traceback.print_exc()
                import z3
                st.note = '%s: %s' % (type(e).__name__, e)
                try:
                    st.oblige('no-unexpected-error', z3.BoolVal(False))
                except core.PathEnd:
                    pass
                why = 'error'
            except core.Unsupported as u:
                infer or self.unsupported.append(str(u))
                why = 'unsupported %s' % u
                if self.verbose:
                    traceback.print_exc()
        return why

    def run(self):
        from pv import core
        st = self.st
        work = [[]]
        while work:
            if time.time() > self.deadline:
                self.unsupported.append('out of time')
                break
            if st.stats['paths'] > self.maxpaths:
                self.unsupported.append('too many paths')
                break
            if len(self.unsupported) > 40:
                break
            trace = work.pop()
            try:
                why = self.path(trace)
            except core.Restart as e:
                st.stats['restarts'] += 1
                work = again(work, trace, st.trace, e.pos)
                continue
            except core.NeedInfer as e:
                try:
                    self.infer(st.trace[:st.pos], str(e))
                    work.append(trace)
                except core.Restart as e:
                    st.stats['restarts'] += 1
                    work = again(work, trace, st.trace, e.pos)
                continue
            if self.verbose:
                print('path', st.stats['paths'], ''.join((('T' if e.val[0] else 'F') if e.kind == 'b' else e.kind[0] + str(e.val)) for e in st.trace if e.kind[0] in 'bc')[-100:], why)
            work.extend(st.alternatives(len(trace)))
        return self

    def infer(self, prefix, key):
        from pv import core
        st = self.st
        rec = st.loops[key]
        st.stats['infer'] += 1
        try:
            for rnd in range(-1, 10):
                rec.begin_round()
                work = [prefix]
                n = 0
                why = []
                while work:
                    if time.time() > self.deadline:
                        raise core.Unsupported('out of time')
                    t = work.pop()
                    n += 1
                    if n > 600:
                        raise core.Unsupported('too many paths through one iteration')
                    st.deadline = self.deadline
                    try:
                        why.append(self.path(t, infer=True))
                    except core.Restart as e:
                        if e.pos < len(prefix):
                            del st.loops[key]
                            raise
                        work = again(work, t, st.trace, e.pos)
                        continue
                    except core.NeedInfer as e:
                        try:
                            self.infer(st.trace[:st.pos], str(e))
                            work.append(t)
                        except core.Restart as e:
                            if e.pos < len(prefix):
                                del st.loops[key]
                                raise
                            work = again(work, t, st.trace, e.pos)
                        continue
                    if rnd == -1 and (rec.seeds or n >= 40):
                        break
                    work.extend(st.alternatives(len(t)))
                core.set_state(st)
                if rnd == -1:
                    rec.finish_seeds()
                    rec.rounds = 0
                    if self.verbose:
                        print('  seeds', rec.id, rec.site, {l: s.key[:150] for l, s in rec.shapes.items()}, why[-3:])
                    continue
                if not rec.paths and any(w.startswith('unsupp') for w in why):
                    raise core.Unsupported('; '.join(sorted({w for w in why if w.startswith('unsupp')}))[:200])
                stable = rec.finish_round()
                if self.verbose:
                    print('  infer', rec.id, rec.site, 'round', rnd, 'paths', n, len(rec.paths), {l: s.key[:150] for l, s in rec.shapes.items()}, 'bounds', [str(b) for b in rec.bounds], 'T', str(rec.T and rec.T[1])[:300].replace('\n', ' '), [w for w in why if w and not w.startswith('pathend')][:3])
                if stable:
                    rec.mode = 'done'
                    return
            rec.mode, rec.problem = 'failed', 'no fixed point'
        except core.Unsupported as e:
            rec.mode, rec.problem = 'failed', str(e)

    def result(self):
        st = self.st
        failed = [r for r in st.results if r[1] == 'failed']
        unk = [r for r in st.results if r[1] == 'unknown']
        missing = sorted(set(self.c.covers) - st.covered)
        reason = None
        if failed:
            status = 'refuted'
            reason = 'obligation "%s" fails' % failed[0][0]
        elif self.unsupported:
            status = 'undecided'
            reason = self.unsupported[0]
        elif unk:
            status = 'undecided'
            reason = 'solver gave no answer for "%s"' % unk[0][0]
        elif missing:
            status = 'undecided'
            reason = 'not reachable: %s' % missing
        elif not st.results:
            status = 'undecided'
            reason = 'no obligation was generated'
        elif st.bounded:
            status = 'bounded'
        else:
            status = 'proved'
        return status, reason, failed


def prove(c, mod, tier, seconds):
    t0 = time.time()
    ex = Explorer(c, mod, seconds)
    if tier == 'thorough':
        from pv import second
        ex.st.dump = second.Second(seconds * 0.5)
    ex.run()
    status, reason, failed = ex.result()
    two = {k: round(v, 2) for k, v in ex.st.dump.count.items()} if tier == 'thorough' else None
    if two and two['contradicted']:
        status, reason, failed = 'undecided', 'the two solvers disagree', []
    st = ex.st
    src = ex
    stats = dict(st.stats)
    bounded = False
    if status != 'proved':
        left = max(20, seconds - (time.time() - t0))
        ex2 = Explorer(c, mod, left * 0.8, unroll=2 if tier == 'quick' else 3).run()
        s2, r2, f2 = ex2.result()
        for k, v in ex2.st.stats.items():
            stats[k] = stats.get(k, 0) + v
        st.trusted |= ex2.st.trusted
        st.functions |= ex2.st.functions
        if f2:
            status, reason = 'refuted', r2
            failed, src = f2, ex2
        elif s2 == 'proved' and not (two and two['contradicted']):
            status, reason = 'proved', None       # no loop needed an invariant
            ex, failed = ex2, []
        elif status == 'refuted':
            pass
        elif s2 == 'bounded':
            bounded = True
    from pv import core
    if status == 'refuted' and core.WEAK:
        # an operation was over-approximated: the counterexamples count only if they fail on the real code
        status, reason = 'undecided', 'over-approximated: ' + ', '.join(sorted(core.WEAK))
    if status == 'refuted' and not any(f[3] for f in failed) and src.unsupported:
        # the obligation fails only under inferred invariants, and elsewhere none was found: likewise
        status, reason = 'undecided', 'no adequate invariant: ' + src.unsupported[0]
    obls = {}
    for (l, r, cex, exact) in (ex.st.results if status == 'proved' else st.results):
        obls[l] = r if obls.get(l) in (None, 'proved') else obls[l]
    counts = {}
    for (l, r, cex, exact) in ex.st.results:
        counts[(l, r)] = counts.get((l, r), 0) + 1
    return {'contract': c.name, 'status': status, 'reason': reason, 'obligations': [{'label': l, 'status': r, 'n': counts.get((l, r), 1)} for l, r in obls.items()],
            'stats': stats, 'trusted': sorted(st.trusted), 'functions': sorted(st.functions), 'loops': sorted(st.loops_proved), 'covers': sorted(st.covered),
            'counterexamples': [{'label': l, 'inputs': cex, 'exact': exact} for (l, r, cex, exact) in failed][:12], 'exact': any(f[3] for f in failed), 'bounded': bounded, 'second_solver': two,
            'seconds': round(time.time() - t0, 2)}


def main():
    cmd, prop = sys.argv[1], sys.argv[2]
    cs = [(c, m) for c, m in contracts() if c.prop == prop]
    if cmd == 'list':
        print(json.dumps([{'name': c.name, 'covers': list(c.covers), 'on': list(c.on), 'bound': c.bound} for c, m in cs]))
        return
    name = sys.argv[3]
    c, m = [(c, m) for c, m in cs if c.name == name][0]
    if cmd == 'prove':
        tier, seconds, out = sys.argv[4], float(sys.argv[5]), sys.argv[6]
        r = prove(c, m, tier, seconds)
        with open(out, 'w') as h:
            json.dump(r, h)
    else:
        unroll = int(sys.argv[4]) if len(sys.argv) > 4 and sys.argv[4] != '-' else None
        ex = Explorer(c, m, float(os.environ.get('PV_SECONDS', '120')), unroll=unroll)
        ex.verbose = int(os.environ.get('PV_VERBOSE', '1'))
        ex.run()
        print(ex.result()[:2], [(f[0], f[2], f[3]) for f in ex.result()[2]][:4])
        print(ex.st.stats)


if __name__ == '__main__':
    main()
