"""Check context: collects obligations, writes evidence, prints verdicts."""
import json, os, sys, time, traceback
from .facts import Facts, AnalysisBroken, VERIF, REPO
from .engine import Engine
from .rules import MustPass, M, Gates, ForAll, EachOf, loop_more, succ


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.F = Facts()
        self.E = Engine(self.F)
        self.m = M(self.E)
        self.obl = []
        self.viol = []
        self.known = []
        self.assumptions = []
        self.functions = set()
        self.steps = 0
        self.rules = {}
        kf = os.path.join(VERIF, 'known-findings.json')
        self.kf = [k for k in json.load(open(kf)) if k.get('property') == pid and k.get('status') == 'known'] if os.path.exists(kf) else []

    # -- recording --
    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rid, what, where=''):
        self.obl.append((rid, what, where, True))

    def bad(self, rid, what, where, path=(), construct=None):
        """construct: stable identification of the failing construct (function or call site, no line numbers)"""
        key = construct or what
        for k in self.kf:
            if k['rule'] == rid and k['construct'] == key:
                self.known.append((k, where))
                self.obl.append((rid, what, where, True))
                return
        self.obl.append((rid, what, where, False))
        self.viol.append({'rule': rid, 'what': what, 'where': where, 'path': list(path), 'construct': key})

    def check(self, cond, rid, what, where='', construct=None):
        if cond:
            self.ok(rid, what, where)
        else:
            self.bad(rid, what, where, construct=construct)

    def broken(self, msg):
        raise AnalysisBroken(msg)

    def seen(self, *fns):
        for f in fns:
            self.functions.add(f.id if hasattr(f, 'id') else f)

    # -- templates --
    def run(self, rule, fn, **kw):
        r = self.E.run(rule, fn, **kw)
        self.functions.add(fn.id)
        self.functions |= self.E.inlined
        self.steps += self.E.steps
        return r

    def must_pass(self, rid, what, fn, keys, min_targets=1, need_guard=False, report=None, store=None, **kw):
        """path rule: one obligation per target site reached from fn"""
        rule = MustPass(self.E, keys, **kw)
        self.run(rule, fn, store=store)
        if len(rule.ntargets) < min_targets:
            self.bad(rid, what + ' (only %d of %d steps that need it are left)' % (len(rule.ntargets), min_targets), '%s in %s' % (fn.loc(), fn.qn), construct='%s in %s' % (what, fn.qn))
        badsites = {}
        for ev, path in rule.bad:
            badsites.setdefault((ev.fn.id, ev.line), (ev, path))
        for (fid, line) in sorted(rule.ntargets):
            f = self.F.fns[fid]
            if (fid, line) in badsites:
                ev, path = badsites[(fid, line)]
                self.bad(rid, what, '%s in %s (entry %s)' % (f.loc(line), f.qn, fn.qn), path, construct='%s in %s' % (what, f.qn))
            else:
                self.ok(rid, what, '%s in %s' % (f.loc(line), f.qn))
        return rule

    def gates(self, rid, fn, keys, labels, need=(), min_sites=1, store=None, **kw):
        """labels: gate name -> text of the obligation; need: gate names that must be reached somewhere"""
        rule = Gates(self.E, keys, **kw)
        try:
            self.run(rule, fn, store=store)
        except AnalysisBroken as e:
            if 'too many states' not in str(e):
                raise
            # decide the gates one at a time: two fact values instead of a power set
            names = set(kw.get('br') or ()) | set(kw.get('ev') or ())
            sites = {}
            for g in sorted(names):
                one = dict(kw)
                one['br'] = {g: kw['br'][g]} if g in (kw.get('br') or {}) else {}
                one['ev'] = {g: kw['ev'][g]} if g in (kw.get('ev') or {}) else {}
                one['kills'] = {g: kw['kills'][g]} if g in (kw.get('kills') or {}) else {}
                one['targets'] = [(l, p, frozenset(n) & {g}) for l, p, n in kw.get('targets', ())]
                if kw.get('exits'):
                    one['exits'] = lambda k, r, g=g: (lambda n: None if n is None else frozenset(n) & {g})(kw['exits'](k, r))
                r = Gates(self.E, keys, **one)
                self.run(r, fn, store=store)
                for s, d in r.sites.items():
                    sites.setdefault(s, {}).update(d)
            rule.sites = sites
        if len(rule.sites) < min_sites:
            w = 'only %d of at least %d guarded steps are left' % (len(rule.sites), min_sites)
            self.bad(rid, w, '%s in %s' % (fn.loc(), fn.qn), construct='steps of %s in %s' % (rid, fn.qn))
        for (label, fid, line), gs in sorted(rule.sites.items()):
            f = self.F.fns[fid]
            for g, path in sorted(gs.items()):
                what = labels.get(g, g)
                if path is None:
                    self.ok(rid, what, '%s in %s' % (f.loc(line), f.qn))
                else:
                    self.bad(rid, what, '%s in %s (%s, entry %s)' % (f.loc(line), f.qn, label, fn.qn), path, construct='%s: %s in %s' % (label, g, f.qn))
        return rule

    def forall(self, rid, what, fn, keys, trig, done=None, min_trigs=1, store=None, **kw):
        rule = ForAll(self.E, keys, trig, done, **kw)
        self.run(rule, fn, store=store)
        if len(rule.trigs) < min_trigs:
            # the element test itself is gone: the treatment cannot be established
            self.bad(rid, what + ' (no element test of that kind is left)', '%s in %s' % (fn.loc(), fn.qn), construct='%s in %s' % (what, fn.qn))
            return rule
        badsites = {}
        for site, ev, path in rule.bad:
            badsites.setdefault(site, (ev, path))
        for site in sorted(rule.trigs):
            f = self.F.fns[site[0]]
            if site in badsites:
                ev, path = badsites[site]
                self.bad(rid, what, '%s in %s (entry %s)' % (f.loc(site[1]), f.qn, fn.qn), path, construct='%s in %s' % (what, f.qn))
            else:
                self.ok(rid, what, '%s in %s' % (f.loc(site[1]), f.qn))
        return rule

    def each(self, rid, what, fn, keys, cont, done=None, store=None, more=None, **kw):
        """every element of the container cont(term) is treated before the exits"""
        mo = more or (lambda a, p, ev: loop_more(self.E, a, p, cont))
        rule = EachOf(self.E, keys, mo, done, **kw)
        self.run(rule, fn, store=store)
        if not rule.loops:
            self.bad(rid, what + ' (no loop over all elements is left)', '%s in %s' % (fn.loc(), fn.qn), construct='%s in %s' % (what, fn.qn))
        elif rule.bad:
            for msg, ev, path in rule.bad[:3]:
                self.bad(rid, '%s: %s' % (what, msg), '%s in %s (entry %s)' % (ev.fn.loc(ev.line), ev.fn.qn, fn.qn), path, construct='%s in %s' % (what, fn.qn))
        else:
            for fid, line in sorted(rule.loops):
                self.ok(rid, what, '%s in %s' % (self.F.fns[fid].loc(line), self.F.fns[fid].qn))
        return rule

    # -- finishing --
    def finish(self, level, explanation):
        viol = self.viol
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
            'coverage': {
                'explanation': explanation,
                'obligations': len(self.obl), 'discharged': sum(1 for o in self.obl if o[3]),
                'functions_analysed': len(self.functions), 'translation_units': len(self.F.units),
                'functions_in_fact_base': len(self.F.fns), 'cfg_steps': self.steps,
                'rules': self.rules,
                'sites': [{'rule': r, 'what': w, 'where': p, 'ok': k} for r, w, p, k in self.obl][:400],
                'functions': sorted(self.functions)[:200],
                'known_findings': [k['construct'] for k, _ in self.known],
            },
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for k, where in self.known:
            if k['construct'] not in seen:
                seen.add(k['construct'])
                print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, k['text'], where))
        if viol:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for v in viol:
                    f.write('%s\n  rule %s: %s\n  at %s\n' % (v['what'], v['rule'], self.rules.get(v['rule'], ''), v['where']))
                    for p in v['path']:
                        f.write('    via %s\n' % p)
            for v in viol[:20]:
                print('%s: rule %s: %s' % (v['where'], v['rule'], v['what']))
                if v['path']:
                    print('    path: ' + ' -> '.join(v['path'][-14:]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: %d obligations discharged over %d functions (%d fact-base functions, %d units re-extracted), %.1f s'
              % (self.pid, len(self.obl), len(self.functions), len(self.F.fns), self.F.extracted, time.time() - self.t0))
        return 0
