"""Shared by C11-C14: a parser of /repo against the documented grammar, for every token sequence up to a length."""
import multiprocessing
import os
import random
import time

from checks.common import attempt
from vf import actions, aig, engine, kinds, lalr, refgram, repo, symform
from vf.engine import Unsupported
from vf.runner import Lazy

QUOTED = ['"A"', '"a b"', '"X ("', '"tt"', "_", "a-b", "a1_", "x--y", "ttt", "lasting", "endx"]


def classes(which, tables):
    """lark terminal -> documented token; token -> {terminal: spellings}"""
    import re
    need = refgram.tokens_of(refgram.GRAMMARS[which])
    order = sorted(tables.lark.terminals, key=lambda t: -t.priority)
    cls, spell = {}, {}
    for tok in need:
        for lex in refgram.TOKENS[tok]:
            best = None
            for t in order:
                m = re.compile(t.pattern.to_regexp()).match(lex + " ")
                if m and m.end() == len(lex) and (best is None or (t.priority, t.pattern.type == "str") > (
                        best.priority, best.pattern.type == "str")):
                    best = t
            if best is None:
                raise Unsupported("no terminal for %r" % lex)
            cls.setdefault(best.name, tok)
            if cls[best.name] == tok:
                spell.setdefault(best.name, []).append(lex)
    return cls, spell


class Encoding:
    """Both grammars over the same symbolic tokens."""

    def __init__(self, which, N):
        self.which, self.N = which, N
        self.g = refgram.GRAMMARS[which]
        self.tables = lalr.Tables(which)
        self.cls, self.spell = classes(which, self.tables)
        self.terms = sorted({n for row in self.tables.states.values() for n in row
                             if n in self.tables.patterns})
        sym = [t for t, k in self.cls.items() if k == "SYM"]
        lex = dict(self.spell)
        for t in sym:
            lex[t] = lex[t] + [q for q in QUOTED]
        self.acts = actions.Actions(self.tables, lex, which)
        self.resolved = {}
        self.acts.find_raw()
        c = self.c = aig.Circuit()
        self.vars = [{t: c.var() for t in self.terms} for _ in range(N)]
        self.ends = [c.var() for _ in range(N)] + [aig.TRUE]
        self.clauses = []
        for m in range(N):
            self.clauses += c.one_of(list(self.vars[m].values()) + [self.ends[m]])
            if m:
                self.clauses.append([-self.ends[m - 1], self.ends[m]])
        self.by_class = {}
        for t in self.terms:
            self.by_class.setdefault(self.cls.get(t), []).append(t)

    def tok(self, m, name):
        if name == lalr.END:
            return self.ends[m]
        if m >= self.N:
            return aig.FALSE
        return self.vars[m].get(name, aig.FALSE)

    def rtok(self, m, tokname):
        return self.c.disj([self.tok(m, t) for t in self.by_class.get(tokname, [])])

    def build(self, n, everything=False):
        """Literals for sentences of length n."""
        c = self.c
        ends = c.conj([self.ends[n]] + ([-self.ends[n - 1]] if n else []))
        impl = lalr.ImplForest(c, self.tables, self.tok, self.refused)
        root = impl.root(n)
        acc_i = impl.val(root)
        ref = refgram.RefForest(c, self.g, self.rtok)
        rroot = ("E", "e0", 0, n)
        acc_r = ref.val(rroot)
        both = c.conj([acc_i, acc_r])
        used = impl.used(root, acc_i if everything else both)
        apps = impl.apps(used)
        if everything:
            return {"end": ends, "acc_i": acc_i, "apps": apps}
        lab = {}
        odd = {}
        for (x, k, cnt), spans in apps.items():
            l = self.label(x, k, cnt)
            for i, j, u in spans:
                if l is None or l[0] == "is":
                    continue
                if l[0] == "run":
                    for q in range(l[2]):
                        lab.setdefault((l[1], i + q, j), []).append(u)
                elif l[0] == "?":
                    lab.setdefault(("?", i, j), []).append(u)
                    odd.setdefault((x, k, cnt), []).append((i, j, u))
                else:
                    lab.setdefault((l[1], i, j), []).append(u)
        lab = {k: c.disj(v) for k, v in lab.items()}
        rlab = ref.labels(ref.used(rroot, both))
        strip(c, self, lab, n)
        strip(c, self, rlab, n)
        diffs = [(k, c.xor(lab.get(k, aig.FALSE), rlab.get(k, aig.FALSE)))
                 for k in sorted(set(lab) | set(rlab), key=lambda k: (k[1], k[2], k[0]))]
        return {"end": ends, "acc_i": acc_i, "acc_r": acc_r, "both": both, "diffs": diffs, "odd": odd, "lab": lab,
                "rlab": rlab, "nodes": len(impl.values) + len(ref.values)}

    def refused(self, x, k, cnt):
        l = self.label(x, k, cnt)
        return l is not None and l[0] == "raise"

    def label(self, x, k, cnt):
        l = self.acts.label(x, k, cnt)
        if l and l[0] == "!":
            l = self.resolved.get((x, k, cnt)) or ("?", l[1])
        return l

    def decode(self, model, n):
        return [next(t for t, v in self.vars[m].items() if v in model) for m in range(n)]

    def text(self, terms, names=None, spelling=0):
        """(tokens, text) of a sequence of terminals; atoms are told apart by their position."""
        toks = []
        for m, t in enumerate(terms):
            tok = self.cls.get(t)
            if tok == "SYM":
                toks.append((tok, names[m] if names else "a%d" % m))
            elif tok is None:
                toks.append((None, sample(self.tables.patterns[t])))
            else:
                sp = self.spell[t]
                toks.append((tok, sp[spelling % len(sp)]))
        return toks


def sample(t):
    import z3
    from vf import rex
    s = z3.Solver()
    v = z3.String("s")
    s.add(z3.InRe(v, rex.to_z3(t.pattern.to_regexp())), z3.Length(v) > 0)
    if s.check() != z3.sat:
        raise Unsupported("sample of %s" % t)
    return rex.decode(s.model()[v])


def strip(c, enc, lab, n):
    """A letter (Prop) is placed on the formula inside the parentheses around it, wherever it was built."""
    props = {(k[1], k[2]): v for k, v in lab.items() if k[0] == "ldl.Prop"}
    if not props:
        return
    for k in [k for k in lab if k[0] == "ldl.Prop"]:
        del lab[k]
    nodes = {}
    for k, v in lab.items():
        nodes.setdefault((k[1], k[2]), []).append(v)
    w = {}
    for size in range(n, 0, -1):
        for i in range(0, n - size + 1):
            j = i + size
            w[i, j] = c.disj([props.get((i, j), aig.FALSE), c.conj([
                w.get((i - 1, j + 1), aig.FALSE), enc.rtok(i - 1, "LP") if i else aig.FALSE,
                enc.rtok(j, "RP") if j < n else aig.FALSE])])
    for s, v in nodes.items():
        x = c.conj([w[s], c.disj(v)])
        if x != aig.FALSE:
            lab[("ldl.Prop",) + s] = x


# ------------------------------------------------------------------ native runs
def judge(which, toks, text=None):
    """("ok"|"violated"|"skip", message) of parsing the tokens natively."""
    text = refgram.text_of(toks) if text is None else text
    g = refgram.GRAMMARS[which]
    kinds.universe().base.reset_cache()
    try:
        want = refgram.parse(g, toks, actions.make)
    except refgram.Ambiguous:
        return "skip", "ambiguous"
    except Exception as e:
        return "skip", "the documented formula cannot be built: %s" % e
    if want is None:
        relaxed = [("SYM", t) if k in ("TT", "FF", "LAST", "END", "TRUE", "FALSE", "START") else (k, t) for k, t in toks]
        if relaxed != toks and any_relaxed(g, toks):
            return "skip", "reserved word in a place where only a letter is possible"
    f = getattr(repo.mod("parsers"), "parse_" + which)
    got, err = attempt(f, text)
    if want is None:
        if err is None:
            return "violated", "parse_%s(%r) gives %s, but the documented grammar does not derive it" % (which, text, show(got))
        return "ok", "rejected"
    if err is not None:
        return "violated", "parse_%s(%r) raises %s: %s, but it should give %s" % (
            which, text, type(err).__name__, str(err)[:80], show(want))
    if not actions.same_value(got, want):
        return "violated", "parse_%s(%r) gives %s instead of %s" % (which, text, show(got), show(want))
    return "ok", "as documented"


def any_relaxed(g, toks):
    """Does reading some of the reserved words as plain words make the sentence derivable?"""
    idx = [n for n, (k, _) in enumerate(toks) if k in ("TT", "FF", "LAST", "END", "TRUE", "FALSE", "START")]
    for mask in range(1, 1 << min(len(idx), 10)):
        t = list(toks)
        for b, n in enumerate(idx[:10]):
            if mask >> b & 1:
                t[n] = ("SYM", t[n][1])
        try:
            if refgram.parse(g, t, lambda op, args, text: (op,) + tuple(args)) is not None:
                return True
        except refgram.Ambiguous:
            return True
    return False


def show(f):
    try:
        return kinds.show(kinds.to_ast(f))
    except Exception:
        return repr(f)[:200]


GROUPS = 6  # the positions at which trees may first differ are decided in groups


class Grammar:
    """All token sequences up to a length: acceptance and tree."""

    def __init__(self, which, N, timeout, natives):
        self.which, self.N, self.timeout, self.natives = which, N, timeout, natives
        self.name = "token sequences"

    def replay(self, rec):
        toks = [tuple(t) for t in rec["tokens"]]
        v, msg = judge(self.which, toks, rec.get("text"))
        return ("violated" if v == "violated" else "ok"), msg

    def replay_task(self):
        t = type("T", (), {})()
        t.replay = self.replay
        return t

    def run(self, tier):
        res = engine.Result()
        try:
            enc = Encoding(self.which, self.N)
            self.prepare(enc, res)
            if res.violations:
                return [(self.name, "LALR automaton", res)]
        except Unsupported as e:
            res.unsupported.append(str(e))
            res.stats.add(paths_unsupported=1)
            res.complete = False
            return [(self.name, "LALR automaton", res)]
        jobs = [(n, part) for n in range(self.N, 0, -1)
                for part in ["more", "fewer"] + ["tree %d" % g for g in range(GROUPS if n > 7 else 1)] + ["natives"]]
        _shared[:] = [enc, self]
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 4), maxtasksperchild=1) as pool:
            for out in pool.imap_unordered(_job, jobs, chunksize=1):
                st, viols, samples, notes, unsup = out
                res.stats.merge(st)
                res.samples += samples
                res.unsupported += unsup
                for k, v in notes.items():
                    res.notes[k] = v
                res.violations += viols
                if unsup or st.get("unknown") or st.get("spurious"):
                    res.complete = False
                if res.violations:
                    pool.terminate()
                    break
        return [(self.name, "LALR automaton", res)]

    # -- rules whose action looks into its operands: decided on opaque formulas
    def prepare(self, enc, res):
        apps = {}
        for x, rules in enc.tables.rules.items():
            if enc.tables.inline(x):
                continue
            for k in range(len(rules)):
                for cnt in range(1, self.N + 1):
                    l = enc.acts.label(x, k, cnt)
                    if l is not None:
                        apps[x, k, cnt] = l
                        res.stats.add(states=1)
        res.notes["rule applications executed on opaque operands"] = len(apps)
        odd = {k: l for k, l in apps.items() if l[0] == "!"}
        enc.resolved = {}
        if odd:
            res.notes["rules decided with opaque formulas"] = str(sorted(k[0] for k in odd))[:300]
            look_inside(self, enc, apps, odd, res)

    def job(self, enc, n, part):
        st, viols, samples, notes, unsup = engine.Stats(), [], [], {}, []
        random.seed(n)
        try:
            b = enc.build(n)
            st.add(transitions=b["nodes"])
            base = [b["end"]]
            c = enc.c
            if part == "natives":
                self.sentences(enc, b, n, st, viols, samples)
                return st, viols, samples, notes, unsup
            if part.startswith("tree"):
                g = int(part[5:])
                d = [x for q, (k, x) in enumerate(b["diffs"]) if n <= 7 or k[1] * GROUPS // n == g]
                goal = [b["both"], c.disj(d)]
            else:
                goal = {"more": [b["acc_i"], -b["acc_r"]], "fewer": [b["acc_r"], -b["acc_i"]]}[part]
            blocked = []
            for attempt_no in range(6):
                try:
                    m = aig.solve(c, base + goal, enc.clauses + blocked, timeout=self.timeout, stats=st)
                except aig.Unknown as e:
                    st.add(unknown=1)
                    notes["unknown: %s, length %d" % (part, n)] = str(e)
                    break
                if attempt_no == 0:
                    st.add(obligations=1)
                if m is None:
                    if attempt_no == 0:
                        st.add(discharged=1)
                    break
                terms = enc.decode(m, n)
                found = False
                for sp in (0, 1):
                    toks = enc.text(terms, spelling=sp)
                    v, msg = judge(self.which, toks)
                    if v == "violated":
                        viols.append({"tokens": toks, "text": refgram.text_of(toks), "msg": msg})
                        found = True
                        break
                if found:
                    break
                st.add(spurious=1)
                notes["not confirmed by the real parser (%s)" % part] = refgram.text_of(enc.text(terms))
                blocked.append([-enc.vars[m_][t] for m_, t in enumerate(terms)])
        except Unsupported as e:
            unsup.append(str(e))
            st.add(paths_unsupported=1)
        return st, viols, samples, notes, unsup

    def sentences(self, enc, b, n, st, viols, samples):
        """Sentences chosen by the solver, derivable and not, read by the real parser."""
        c = enc.c
        import z3  # noqa: F401
        rnd = random.Random(1000 + n)
        quota = self.natives
        blocked = []
        labels = sorted({k[0] for k in b["rlab"]})
        for turn in range(quota):
            good = turn % 3 != 2
            goal = [b["end"], b["acc_r"] if good else -b["acc_r"]]
            if good and labels:
                want = labels[(turn * 7 + n) % len(labels)]
                goal.append(c.disj([v for k, v in b["rlab"].items() if k[0] == want]))
            extra = []
            if not good and n > 1:  # a near miss: change tokens of a derivable sentence
                toks0 = None
                m = _try(c, [b["end"], b["acc_r"]] + self.hint(enc, n, rnd), enc.clauses, st)
                if m is None:
                    m = _try(c, [b["end"], b["acc_r"]], enc.clauses, st)
                if m is None:
                    continue
                t0 = enc.decode(m, n)
                q = rnd.randrange(n)
                extra = [enc.vars[i][t] for i, t in enumerate(t0) if i != q]
                del toks0
            else:
                extra = self.hint(enc, n, rnd)
            m = _try(c, goal + extra, enc.clauses + blocked, st)
            if m is None and good:
                m = _try(c, goal, enc.clauses + blocked, st)
            if m is None:
                continue
            terms = enc.decode(m, n)
            blocked.append([-enc.vars[m_][t] for m_, t in enumerate(terms)])
            names = ["a%d" % i if rnd.random() < .7 else rnd.choice(QUOTED) for i in range(n)]
            if rnd.random() < .3:
                names = [rnd.choice("ab") for _ in range(n)]
            toks = enc.text(terms, names, rnd.randrange(2))
            text = refgram.text_of(toks)
            style = rnd.randrange(4)
            if style == 1:
                text = rnd.choice(["\n", " "]) + squeeze(toks, rnd) + rnd.choice(["  ", "\r\n"])
            elif style == 2:
                text = squeeze(toks)
            v, msg = judge(self.which, toks, text)
            if v == "violated":
                viols.append({"tokens": toks, "text": text, "msg": msg})
                return
            if v == "ok":
                st.add(validated=1)
                if len(samples) < 1:
                    samples.append({"text": text, "verdict": msg})

    def hint(self, enc, n, rnd):
        """Fix a few tokens at random, so that the solver's sentences differ."""
        out = []
        for i in rnd.sample(range(n), min(n, rnd.choice([0, 1, 1, 2]))):
            out.append(enc.vars[i][rnd.choice(enc.terms)])
        return out


def squeeze(toks, rnd=None):
    """The tokens with as few blanks as the lexical rules allow, or with blanks of all kinds at random."""
    blanks = [" ", "\t", "\n", "  ", "\r\n", "\x0c "]
    out, prev = "", None
    for k, t in toks:
        if out:
            word = (out[-1].isalnum() or out[-1] in "_-") and (t[0].isalnum() or t[0] in "_-")
            letter = prev in refgram.LETTERS and t[0] not in '("'
            sign = out[-1] in "<-|&>" and t[0] in "<-|&>"
            must = word or letter or sign or prev is None or k is None
            if rnd is None:
                out += " " if must else ""
            elif must or rnd.random() < .5:
                out += rnd.choice(blanks)
        out += t
        prev = k
    return out


def _try(c, goal, clauses, st):
    try:
        return aig.solve(c, goal, clauses, timeout=30, stats=st)
    except aig.Unknown:
        return None


_shared = []


def _job(a):
    n, part = a
    enc, task = _shared
    return task.job(enc, n, part)


class Call:
    """The parser object hands the text to lark and lark's tree to the transformer, and nothing else."""

    name = "entry point"

    def __init__(self, which):
        self.which = which

    def replay_task(self):
        return Grammar(self.which, 1, 1, 1).replay_task()

    def run(self, tier):
        from vf import larks
        res = engine.Result()
        try:
            p = larks.parser_object(self.which)
            lk, tr = larks.lark_of(self.which), larks.transformer_of(self.which)
            if tr is None:
                raise Unsupported("no separate transformer")
            text, tree, out = actions.Child(0), actions.Child(1), actions.Child(2)
            seen = []

            def parse(x, *a, **k):
                seen.append(("parse", x, a, k))
                return tree

            def transform(x):
                seen.append(("transform", x))
                return out
            lk.parse, tr.transform = parse, transform
            try:
                got = larks.parse_function(self.which)(text)
            finally:
                del lk.parse, tr.transform
            res.stats.add(states=1, obligations=1)
            if got is out and [s[0] for s in seen] == ["parse", "transform"] and seen[0][1] is text \
                    and not seen[0][2] and not seen[0][3] and seen[1][1] is tree:
                res.stats.add(discharged=1)
            else:
                raise Unsupported("another protocol")
        except (Unsupported, actions.Inspected) as e:
            res.unsupported.append(str(e))
            res.stats.add(paths_unsupported=1)
            res.complete = False
        except Exception as e:
            res.unsupported.append("%s: %s" % (type(e).__name__, str(e)[:100]))
            res.stats.add(paths_unsupported=1)
            res.complete = False
        return [(self.name, "opaque text", res)]


# ------------------------------------------------------------------ actions that look into their operands
def representatives(sort, which):
    """Nine different formulas of a sort, of one of a few kinds."""
    u = kinds.universe()
    p = [u.pl.Atomic("x%d" % n) for n in range(9)]
    r = [u.ldl.Prop(a) for a in p]
    ff = u.base.FalseFormula(logic=u.base.Logic.LDL)
    d = [u.ldl.Diamond(a, ff) for a in r]
    atoms = {"PL": p, "LTL": [u.ltl.Atomic("x%d" % n) for n in range(9)],
             "PLTL": [u.pltl.Atomic("x%d" % n) for n in range(9)], "RE": r, "LDL": d}[sort]
    other = {"PL": lambda n: u.base.Equivalence(p[n], p[(n + 1) % 9]),
             "LTL": lambda n: u.ltl.StrongRelease(atoms[n], atoms[(n + 1) % 9]),
             "PLTL": lambda n: u.pltl.Triggers(atoms[n], atoms[(n + 1) % 9]),
             "RE": lambda n: u.ldl.Union(r[n], r[(n + 1) % 9]),
             "LDL": lambda n: u.ldl.Box(r[n], d[n])}[sort]
    third = {"RE": lambda n: u.ldl.Test(d[n]), "LDL": lambda n: u.base.Implies(d[n], d[(n + 1) % 9])}
    if which == 0:
        return atoms
    if which == 2 and sort in third:
        return [third[sort](n) for n in range(9)]
    if which == 2:
        return [u.base.Implies(atoms[n], atoms[(n + 1) % 9]) for n in range(9)]
    return [other(n) for n in range(9)]


def look_inside(task, enc, apps, odd, res):
    sorts = {}
    pending = dict(odd)
    while True:
        before = len(pending), sum(len(v) for v in sorts.values())
        for (x, k, cnt), l in apps.items():
            for d in enc.acts.derivations(x, k, cnt):
                kids = [s for s in enc.acts.leaves_of(d) if s in enc.tables.rules]
                kid_sorts = [sorts.get(s, set()) for s in kids]
                l2 = enc.resolved.get((x, k, cnt), l)
                if l2[0] == "leaf":
                    r = {actions.result_sort(l2[1], [])}
                elif l2[0] in ("op", "run"):
                    r = {actions.result_sort(l2[1], [s]) for s in (kid_sorts[0] if kids else ())} - {None}
                elif l2[0] == "is":
                    r = set(kid_sorts[0])
                else:
                    r = set()
                sorts.setdefault(x, set()).update(r)
        for key in list(pending):
            x, k, cnt = key
            ds = enc.acts.derivations(x, k, cnt)
            if all(sorts.get(s) for d in ds for s in enc.acts.leaves_of(d) if s in enc.tables.rules):
                del pending[key]
                enc.resolved[key] = resolve(task, enc, key, ds, sorts, res)
                if res.violations:
                    return
        if (len(pending), sum(len(v) for v in sorts.values())) == before:
            break
    for key, l in odd.items():
        enc.resolved.setdefault(key, ("?", l[1]))


def resolve(task, enc, key, ds, sorts, res):
    """The label of a rule application, verified for opaque operands of the formalisms that occur there."""
    import itertools
    u = kinds.universe()
    label = None
    for d in ds:
        syms = list(enc.acts.leaves_of(d))
        nts = [q for q, s in enumerate(syms) if s in enc.tables.rules]
        for combo in itertools.product(*[sorted(sorts[syms[q]]) for q in nts]):
            score, raised, runs = {}, None, 0
            for w in range(3):
                reps = [representatives(s, w)[i] for i, s in enumerate(combo)]
                cand = None
                for texts in enc.acts._texts(syms):
                    runs += 1
                    v, err = attempt(enc.acts.value, d, fill(enc, syms, texts, nts, reps))
                    if err is not None:
                        raised = (raised or 0) + 1
                    here = [c for c, f in candidates(len(syms), nts) if err is None and fits(f, reps, v)]
                    cand = here if cand is None else [c for c in cand if c in here]
                for c in cand:
                    score[c] = score.get(c, 0) + 1
            if raised == runs:
                return ("raise", "always") if label is None else ("?", "raises")
            if not score:
                return ("?", "an unexpected value")
            if label is None:
                label = max(score, key=score.get)
            elif label not in score:
                return ("?", "differs between formalisms")
            bad = verify(task, enc, key, d, syms, nts, combo, label, res)
            if bad == "violation":
                return ("?", "violation")
            if bad == "other":
                return ("?", "differs for some operands")
    return label


def candidates(n, nts):
    out = []
    if len(nts) == 1:
        out.append((("is",), lambda xs: xs[0]))
    for op, cls in actions.ops().items():
        out.append((("op", op), lambda xs, cls=cls: cls(*xs)))
    if len(nts) == 1 and nts[0] == n - 1 and n > 2:
        for op in ("Not", "ltl.Next", "ltl.WeakNext", "ltl.Always", "ltl.Eventually", "pltl.Before", "pltl.WeakBefore",
                   "pltl.Once", "pltl.Historically"):
            cls = actions.ops()[op]

            def run(xs, cls=cls):
                v = xs[0]
                for _ in range(n - 1):
                    v = cls(v)
                return v
            out.append((("run", op, n - 1), run))
    return out


def fits(f, reps, v):
    w, err = attempt(f, list(reps))
    return err is None and actions.same_value(v, w)


def fill(enc, syms, texts, nts, vals):
    it = iter(vals)
    return [next(it) if q in nts else enc.acts.token(s, t) for q, (s, t) in enumerate(zip(syms, texts))]


def verify(task, enc, key, d, syms, nts, combo, label, res):
    f = dict(candidates(len(syms), nts))[label]
    texts = list(enc.acts._texts(syms))
    simple = {}
    if len(nts) > 2:
        simple = {"PL": ["PL.Atomic"], "LTL": ["LTL.Atomic", "LTL.Next", "LTL.Until"],
                  "PLTL": ["PLTL.Atomic", "PLTL.Before", "PLTL.Since"], "LDL": ["LDL.Diamond", "LDL.Box"],
                  "RE": ["RE.Prop", "RE.Star"]}

    def h(ctx):
        kids = [ctx.formula(s, only=simple.get(s)) for s in combo]
        tx = texts[ctx.choose(len(texts))]
        got, err = attempt(enc.acts.value, d, fill(enc, syms, tx, nts, kids))
        if isinstance(err, RecursionError):
            raise err
        want, err2 = attempt(f, kids)
        if err2 is not None:
            return
        ctx.require(err is None, "%s raises %s" % (key[0], err and type(err).__name__))
        ctx.require(ctx.same(got, want), "%s gives another formula than %s" % (key[0], label))

    t = Lazy("rule %s/%d/%d" % key, h, 20, dict(max_arity=2 if len(nts) > 1 else 3, max_names=2),
             fallback=dict(depth=1, budget=20))
    for name, how, r in t.run("quick"):
        res.stats.merge(r.stats)
        res.unsupported += r.unsupported
        if not r.complete or r.stats.get("paths_unsupported"):
            res.complete = False
        for v in r.violations:
            rec = embed(task, enc, key, nts, v)
            if rec is not None:
                res.violations.append(rec)
                return "violation"
        if r.violations:
            return "other"
    return None


def embed(task, enc, key, nts, v):
    """A sentence in which the rule is applied to the given formulas."""
    children = [tokens_of_ast(parsable(a)) for a in v["formulas"]]
    for n in range(key[2], enc.N + 1):
        b = enc.build(n, everything=True)
        spots = [(i, u) for i, j, u in b["apps"].get(key, ()) if j - i == key[2]]
        for i, u in spots:
            try:
                m = aig.solve(enc.c, [b["end"], b["acc_i"], u], enc.clauses, timeout=60)
            except aig.Unknown:
                continue
            if m is None:
                continue
            terms = enc.decode(m, n)
            for sp in (0, 1):
                toks = enc.text(terms, spelling=sp)
                out = []
                for q, t in enumerate(toks):
                    if q - i in nts:
                        out += [("LP", "(")] + children[nts.index(q - i)] + [("RP", ")")]
                    else:
                        out.append(t)
                verdict, msg = judge(task.which, out)
                if verdict == "violated":
                    return {"tokens": out, "text": refgram.text_of(out), "msg": msg}
    return None


def parsable(ast):
    """The same formula, but for the two constants of regular expressions that have no spelling."""
    key, name, cs = ast
    if key in ("RE.True", "RE.False"):
        return ["RE.Prop", None, [["PL." + key[3:], None, []]]]
    return [key, name, [parsable(c) for c in cs]]


WORDS = {"True": "tt", "False": "ff", "PropositionalTrue": "true", "PropositionalFalse": "false"}


def tokens_of_ast(ast, top=True):
    """Documented tokens of a formula, fully bracketed."""
    key, name, cs = ast
    lg, n = key.split(".")
    tok = lambda k: [(k, refgram.TOKENS[k][0])]
    if n == "Atomic":
        return [("SYM", name)]
    if not cs:
        w = WORDS[n] if lg != "PL" else {"True": "true", "False": "false"}[n]
        return tok(w.upper())
    sub = [[("LP", "(")] + tokens_of_ast(c) + [("RP", ")")] for c in cs]
    qual = {"And": "And", "Or": "Or", "Not": "Not", "Implies": "Implies", "Equivalence": "Equivalence"}.get(n)
    qual = qual or {"RE": "ldl"}.get(lg, lg.lower()) + "." + n
    if n == "Box":
        return tok("LB") + sub[0] + tok("RB") + sub[1]
    if n == "Diamond":
        return tok("LT") + sub[0] + tok("GT") + sub[1]
    if n == "Prop":
        return tokens_of_ast(cs[0])
    for g in refgram.GRAMMARS.values():
        for alts in g.values():
            for a in alts:
                if a[-1] == qual and a[0] == "chain":
                    out = list(sub[0])
                    for s in sub[1:]:
                        out += tok(a[1]) + s
                    return out
                if a[-1] == qual and a[0] == "seq" and len(a[1]) == 2:
                    return [t for s in a[1] for t in (tok(s) if s.isupper() else sub[0])]
    raise Unsupported(key)


ASSUMPTIONS = [
    "lark's table-driven LALR loop follows its tables (shift, reduce, go to); the tables, callbacks and transformer "
    "methods themselves are read from the compiled parser on every run",
    "one spelling of each documented token stands for its terminal; reserved words are the tokens they spell (C17 "
    "relates texts and tokens)",
    "the transformer's methods have no effect but their value; those that inspect their operands are decided on opaque "
    "formulas of the formalisms that occur there, the others hold for every operand"]


def functions(which):
    t = {"pl": "_PLTransformer", "ltl": "_LTLTransformer", "pltl": "_PLTLTransformer",
         "ldl": "_LDLTransformer, _PLTransformer"}[which]
    return ["parsers/%s.lark as compiled by lark to LALR tables" % which,
            "parsers.base: AbstractParser.__call__, AbstractTransformer; parsers.%s: %s" % (which, t)]


def bounds(quick, thorough, tier):
    return "all token sequences of length 1 to %d" % (quick if tier == "quick" else thorough)


def tasks(which, n, natives, tier):
    return [Grammar(which, n, 120 if tier == "quick" else 3000, natives), Call(which)]
