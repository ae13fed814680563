"""K01: checkpoints survive interruption at any point and are resumed as they were written."""
from .. import algebra as A
from ..algebra import ZERO, ONE, E, const, sym
from ..interp import Obj, Arr, PyExc, T, Py, integer
from ..oblig import Rule
from ..frame import Table
from ..valnum import Undecided
from . import n01_samplers as n01
from . import q01_results as q01

TITLE = "checkpoints survive interruption and resume the run they were written by"
EXPLANATION = (
    "Effect analysis by abstract evaluation: every function that writes a checkpoint or resume file is evaluated twice over a file system kept in memory that records the state of all files "
    "after each single effect (open, write, close, rename, remove, copy). At each of these crash points the file that a resumed run reads must hold the complete earlier or the complete later "
    "checkpoint. The reader is then evaluated on the last checkpoint and every attribute of the restored sampler is compared with what was written. A sweep over all modules finds other places "
    "that open a file under a name that resuming code reads.")
ASSUMPTIONS = ["renaming a file within a directory is atomic", "external sampler objects are represented by their attributes",
               "asynchronous signals inside a single effect are not modelled"]

S = n01.S
PT = "bilby.bilby_mcmc.sampler."


class Disk:
    """files with a history: after every effect the contents of all files and which of them are incomplete"""

    def __init__(self, lab):
        self.lab, self.it = lab, lab.it
        self.many = False
        self.files, self.partial, self.history, self.reads, self.moves, self.words = {}, set(), [], [], [], {}
        self.clone = lambda v: self.it.deepcopy(v, {})
        e = self.it.ext
        there = lambda i, a, k: self.name(a[0]) in self.files     # noqa: E731
        e.update({"builtins.open": self.open, "io.open": self.open, "dill.dump": self.dump, "pickle.dump": self.dump, "json.dump": self.dump, "dill.load": self.load, "pickle.load": self.load,
                  "os.path.isfile": there, "os.path.exists": there, "os.path.getsize": self.size, "os.remove": self.remove, "os.unlink": self.remove,
                  "shutil.move": self.move, "os.replace": self.move, "os.rename": self.move, "shutil.copyfile": self.copy, "shutil.copy": self.copy, "numpy.savetxt": self.whole, "numpy.save": self.whole,
                  "shutil.copyfileobj": self.stream, "pathlib.Path": self.path, "os.fsync": lambda i, a, k: None, "dill.pickles": lambda i, a, k: True, "pathlib.Path.touch": self.touch,
                  "builtins.float": self.number})
        for n in ("bilby.core.utils.io.safe_file_dump", "bilby.core.utils.safe_file_dump", S + "ptemcee.checkpoint"):
            e.pop(n, None)
        self.it.text = self.text

    # -- numbers as text ------------------------------------------------------------
    def text(self, v):
        if isinstance(v, E):
            w = "<%s>" % v
            self.words[w] = v
            return w
        return v if isinstance(v, str) else "?"

    def number(self, it, a, k):
        if isinstance(a[0], str):
            w = a[0].strip()
            if w in self.words:
                return self.words[w]
            raise PyExc("ValueError") if w == "" else Undecided("number from text")
        return a[0]

    # -- files ------------------------------------------------------------------------
    def name(self, v):
        if isinstance(v, Obj) and "path" in v.attrs:
            return v.attrs["path"]
        if not isinstance(v, str):
            raise Undecided("file name")
        return v

    def step(self):
        self.history.append((dict(self.files), set(self.partial)))

    def path(self, it, a, k):
        n = self.name(a[0])
        return Obj("pathlib.Path", {"path": n}, {"touch": lambda i, x, y: self.touch(i, [n], {}), "unlink": lambda i, x, y: self.remove(i, [n], {}), "exists": lambda i, x, y: n in self.files,
                                                 "is_file": lambda i, x, y: n in self.files})

    def touch(self, it, a, k):
        self.files.setdefault(self.name(a[0]), ("new", 0))
        self.step()

    def size(self, it, a, k):
        n = self.name(a[0])
        if n not in self.files:
            raise PyExc("FileNotFoundError")
        return ZERO if self.files[n] in (("new", 0), None) else ONE

    def open(self, it, a, k):
        n = self.name(a[0] if a else k["file"])
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if "r" in mode and "+" not in mode:
            if n not in self.files:
                raise PyExc("FileNotFoundError")
            self.reads.append(n)
        elif "w" in mode or "x" in mode or "a" in mode:
            if "a" not in mode or n not in self.files:
                self.files[n] = []
            else:
                self.files[n] = list(self.files[n]) if isinstance(self.files[n], list) else [self.files[n]]
            self.partial.add(n)
            self.step()
        else:
            raise Undecided("open")

        def write(i, x, y):
            self.files[n] = self.files[n] + [x[0]]
            self.step()

        def close(i, x, y):
            if n in self.partial:
                self.partial.discard(n)
                self.step()
        f = Obj("file", {"name": n}, {"write": write, "close": close, "__exit__": close, "flush": lambda i, x, y: None, "fileno": lambda i, x, y: const(3), "readline": lambda i, x, y: self.line(n),
                                      "read": lambda i, x, y: self.line(n)})
        f.hooks["__enter__"] = lambda i, x, y: f
        return f

    def line(self, n):
        v = self.files[n]
        if not isinstance(v, list) or not all(isinstance(x, str) for x in v):
            raise Undecided("text of a file")
        return "".join(v)

    def dump(self, it, a, k):
        n = a[1].attrs["name"]
        self.files[n] = self.files[n] + [Pickle(self.clone(a[0]))]
        self.step()

    def load(self, it, a, k):
        v = self.files[a[0].attrs["name"]]
        if v in ([], ("new", 0)):
            raise PyExc("EOFError")
        if not isinstance(v, list) or len(v) != 1 or not isinstance(v[0], Pickle):
            raise Undecided("pickle")
        return self.clone(v[0].value)

    def whole(self, it, a, k):
        n = self.name(a[0])
        self.files[n] = []
        self.partial.add(n)
        self.step()
        self.files[n] = [Pickle(self.clone(a[1]))]
        self.partial.discard(n)
        self.step()

    def table(self, it, a, k):
        n = self.name(a[0])
        if n not in self.files:
            raise PyExc("FileNotFoundError")
        self.reads.append(n)
        v = self.files[n]
        if not isinstance(v, list) or len(v) != 1 or not isinstance(v[0], Pickle):
            raise Undecided("table")
        return it.arr(self.clone(v[0].value))

    def remove(self, it, a, k):
        n = self.name(a[0])
        if n not in self.files:
            raise PyExc("FileNotFoundError")
        del self.files[n]
        self.partial.discard(n)
        self.step()

    def move(self, it, a, k):
        x, y = self.name(a[0]), self.name(a[1])
        if x not in self.files:
            raise PyExc("FileNotFoundError")
        self.files[y] = self.files.pop(x)
        self.partial.discard(y)
        if x in self.partial:
            self.partial.discard(x)
            self.partial.add(y)
        self.moves.append((x, y))
        self.step()

    def copy(self, it, a, k):
        x, y = self.name(a[0]), self.name(a[1])
        if x not in self.files:
            raise PyExc("FileNotFoundError")
        self.files[y] = []
        self.partial.add(y)
        self.step()
        self.files[y] = self.files[x]
        if x not in self.partial:
            self.partial.discard(y)
        self.step()

    def stream(self, it, a, k):
        x, y = a[0].attrs["name"], a[1].attrs["name"]
        self.files[y] = self.files[y] + list(self.files[x])
        self.step()

    # -- crash points -------------------------------------------------------------------
    def mark(self):
        """the state before a write"""
        self.history, self.moves = [], []
        self.before = (dict(self.files), set(self.partial))

    def crash(self, target, many=False):
        """what is wrong with a file at one of the crash points since mark(); `many`: several checkpoints were written"""
        old, new = self.before[0].get(target), self.files.get(target)
        if target in self.partial:
            return "%s is left incomplete" % target
        if new is None:
            return "%s is not written" % target
        for files, partial in self.history:
            v = files.get(target)
            if target in partial:
                return "an interruption while %s is written leaves an incomplete file in place of the last checkpoint" % target
            if v is None and old is not None:
                return "an interruption leaves no %s" % target
            old = v if many or self.many else old
            if v is not None and v is not old and v is not new:
                return "an interruption leaves %s with contents of neither checkpoint" % target
        for x, y in self.moves:
            if y == target and x.rpartition("/")[0] != y.rpartition("/")[0]:
                return "%s is moved there from another directory, which is not atomic" % target
        return None


class Chain(Obj):
    """an external sampler whose `chain` is what it keeps as `_chain`"""

    def clone(self):
        o = Chain(self.cls, {}, self.hooks)
        o.attrs.update(self.attrs)
        return o

    def frame_attr(self, it, n):
        return self.attrs["_chain"] if n == "chain" else None


class Pickle:
    def __init__(self, v):
        self.value = v


def same(a, b, at, seen=None):
    """difference of two values"""
    seen = {} if seen is None else seen
    if isinstance(a, Obj) and isinstance(b, Obj):
        if isinstance(a, n01.Moment) or hasattr(a, "v"):
            return None if getattr(b, "v", None) == a.v else "%s is %s instead of %s" % (at, getattr(b, "v", b), a.v)
        if id(a) in seen:
            return None
        seen[id(a)] = b
        if a.cls != b.cls:
            return "%s is another kind of object" % at
        for n in a.attrs:
            if n not in b.attrs:
                return "%s.%s is missing" % (at, n)
            d = same(a.attrs[n], b.attrs[n], "%s.%s" % (at, n), seen)
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s has the keys %s instead of %s" % (at, sorted(map(str, b)), sorted(map(str, a)))
        return next((d for d in (same(a[n], b[n], "%s[%s]" % (at, n), seen) for n in a) if d), None)
    if isinstance(a, (list, T)) and not isinstance(a, E):
        if not isinstance(b, (list, T)) or isinstance(b, E) or len(a) != len(b):
            return "%s is %s" % (at, str(b)[:60])
        return next((d for d in (same(x, y, "%s[%d]" % (at, i), seen) for i, (x, y) in enumerate(zip(a, b))) if d), None)
    if a is b:
        return None
    if type(a).__name__ in ("Fn", "Cls", "Lam", "Py", "Ext"):
        return None if type(a) is type(b) else "%s is %s" % (at, str(b)[:60])
    return None if a == b else "%s is %s instead of %s" % (at, str(b)[:60], str(a)[:60])


def fresh(prog, dec, disk=None):
    lab = n01.Lab(prog, dec)
    lab.w.dec = n01.Yes(dec, [sym("t%d" % i) for i in range(3)], lab)
    return lab


def changed(d, extra=()):
    """the same attributes with later values"""
    return {n: A.fn("@later", v) if isinstance(v, E) and not A.is_const(v) else v for n, v in d.items()}


def pool(name):
    return Obj("pool", {"map": Py(lambda j, x, y: [j.apply(x[0], [z]) for z in j.iterate(x[1])]), "id": name, "_processes": const(2)},
               {"close": lambda i, x, y: None, "join": lambda i, x, y: None})


# -- one scenario per sampler: returns (disk, names read by the resumed run, [(what, got, want)]) ----------------------------
def nested(prog, dec, name="dynesty.Dynesty", resume=True):
    lab = fresh(prog, dec)
    d = Disk(lab)
    it = lab.it
    sign = lambda i, a, k: n01.signature(dict(n01.NESTED) if "run_nested" in str(getattr(a[0], "q", a[0])) else dict(n01.INIT))     # noqa: E731
    it.ext.update({"inspect.signature": sign, "dynesty.__version__": "2", "dynesty.dynamicsampler._SAMPLERS": {}, "dynesty.nestedsamplers._SAMPLING": {}, "dynesty.NestedSampler": lab.raiser("NewRun"),
                   "dynesty.DynamicNestedSampler": lab.raiser("NewRun")})
    kw = dict(nlive=const(3), check_point_plot=False, print_method="none", check_point_delta_t=sym("often"))
    ran = []

    def going(i, a, k):
        ran.append(1)
        raise PyExc("Continued")
    first = lab.make(name, resume=resume, **kw)
    p = pool("first")
    first.attrs["pool"] = p
    state = {"ncall": sym("ncall"), "it": sym("it"), "saved": Arr([sym("v0"), sym("v1")]), "live_u": Arr([sym("l0"), sym("l1")]), "rstate": sym("rstate")}
    smp = Obj("dynesty sampler", dict(state, kwargs={"walks": sym("walks"), "nlive": const(3)}, pool=p, M=it.getattr(p, "map"), added_live=False, queue_size=const(1), nqueue=const(4),
                                      loglikelihood=Obj("loglikelihood", {"pool": p})), {"run_nested": going, "_remove_live_points": lambda i, a, k: None})
    first.attrs["sampler"] = smp
    first.attrs["sampling_time"] = n01.span(sym("spent"))
    first.attrs["start_time"] = n01.Moment(ZERO)
    lab.clock = 0
    it.method(first, "write_current_state")
    checks = []
    state = changed(state)
    smp.attrs.update(state)
    d.mark()
    it.method(first, "write_current_state")
    total = sym("spent") + const(lab.clock)
    checks.append(("the pool of the running sampler after a checkpoint", smp.attrs.get("pool"), p))
    lab.clock += 1000       # the machine is down
    second = lab.make(name, resume=resume, **kw)
    d.reads = []
    q = pool("second")
    it.ext["multiprocessing.Pool"] = lambda i, a, k: q
    second.attrs.update(npool=const(1))
    status = None
    try:
        it.method(second, "run_sampler")
    except PyExc as e:
        status = e.name
    return lab, d, checks, status, second, state, total


def case_nested(prog, dec, name):
    lab, d, out, status, second, state, total = nested(prog, dec, name)
    reads = list(d.reads)
    out.append(("what the second run does", status, "Continued"))
    s = second.attrs.get("sampler")
    if isinstance(s, Obj):
        for n, v in state.items():
            out.append(("the sampler's %s" % n, s.attrs.get(n), v))
        out.append(("the sampler's walks", s.attrs["kwargs"].get("walks") if isinstance(s.attrs.get("kwargs"), dict) else None, sym("walks")))
        out.append(("the sampler's pool", s.attrs.get("pool"), second.attrs.get("pool")))
    spent = second.attrs.get("sampling_time")
    out.append(("the sampling time before the interruption", getattr(spent, "v", spent), total))
    return d, reads, out


def optout_nested(prog, dec, name):
    lab, d, out, status, second, state, total = nested(prog, dec, name, False)
    return [("what a run with resume=False does", status, "NewRun")]


STATE = ("iteration", "chain_array", "log_likelihood_array", "log_posterior_array", "pos0", "beta_list", "tau_list", "tau_list_n", "Q_list", "time_per_check")


def tempered(prog, dec, resume=True):
    lab = fresh(prog, dec)
    d = Disk(lab)
    it = lab.it
    for n in "abc":
        it.getitem(lab.pd, n).attrs.update({"minimum": n01.q(-9), "maximum": n01.q(9), "_minimum": n01.q(-9), "_maximum": n01.q(9)})
    it.ext.update({"ptemcee.Sampler": lab.raiser("NewRun"), "ptemcee.__version__": "1.0.1"})
    kw = dict(nwalkers=const(2), ntemps=const(2), check_point_plot=False, verbose=False)
    first = lab.make("ptemcee.Ptemcee", resume=resume, **kw)
    p = pool("first")
    first.attrs["pool"] = p
    smp = Obj("ptemcee sampler", {"pool": p, "dim": const(3), "_betas": Arr([ONE, n01.q(1, 4)]), "seen": sym("seen"), "threads": const(1)})

    def values(tag):
        s = lambda n: sym("%s_%s" % (tag, n))     # noqa: E731
        return {"iteration": const(4 if tag == "x" else 6), "chain_array": Arr(Arr(Arr([s("c%d%d%d" % (i, j, k)) for k in range(3)]) for j in range(8)) for i in range(2)),
                "log_likelihood_array": Arr(Arr(Arr(s("l%d%d%d" % (t, i, j)) for j in range(8)) for i in range(2)) for t in range(2)),
                "log_posterior_array": Arr(Arr(Arr(s("p%d%d%d" % (t, i, j)) for j in range(8)) for i in range(2)) for t in range(2)),
                "pos0": Arr(Arr(Arr(s("s%d%d%d" % (t, i, k)) for k in range(3)) for i in range(2)) for t in range(2)), "beta_list": [Arr([ONE, s("b1")]), Arr([ONE, s("b2")])],
                "tau_list": [Arr([s("t1")]), Arr([s("t2")])], "tau_list_n": [const(1), const(3)], "Q_list": [s("q1"), s("q2")], "time_per_check": [s("d1"), s("d2")]}
    later = {"discard": const(1), "nburn": const(1), "thin": const(1), "nsamples_effective": ZERO, "tau_int": const(1)}
    first.attrs.update(values("x"), sampler=smp, **later)
    it.method(first, "write_current_state", plot=False)
    want = values("y")
    first.attrs.update({n: it.deepcopy(v, {}) for n, v in want.items()})
    smp.attrs["seen"] = sym("seen_later")
    d.mark()
    it.method(first, "write_current_state", plot=False)
    out = [("the pool of the running sampler after a checkpoint", smp.attrs.get("pool"), p)]
    for n in STATE:
        out.append(("%s of the running sampler after a checkpoint" % n, first.attrs.get(n), want[n]))
    d.reads = []
    second = lab.make("ptemcee.Ptemcee", resume=resume, **kw)
    q = pool("second")
    second.attrs["pool"] = q
    status = None
    try:
        it.method(second, "setup_sampler")
    except PyExc as e:
        status = e.name
    return d, out, second, status, want, q


def case_tempered(prog, dec, name):
    d, out, second, status, want, q = tempered(prog, dec)
    reads = list(d.reads)
    out.append(("what the second run does", status, None))
    for n in STATE:
        out.append(("the restored %s" % n, second.attrs.get(n), want[n]))
    s = second.attrs.get("sampler")
    if isinstance(s, Obj):
        out += [("the restored sampler", s.attrs.get("seen"), sym("seen_later")), ("the restored sampler's pool", s.attrs.get("pool"), q),
                ("the restored temperatures", s.attrs.get("_betas"), want["beta_list"][-1])]
    return d, reads, out


def optout_tempered(prog, dec, name):
    return [("what a run with resume=False does", tempered(prog, dec, False)[3], "NewRun")]


def ensemble(prog, dec, name, resume=True):
    """emcee and its relatives: two walkers, three of five steps completed when the run is interrupted"""
    kind = name.split(".")[0]
    lab = fresh(prog, dec)
    d = Disk(lab)
    it = lab.it
    it.ext.update({"emcee.EnsembleSampler": lab.raiser("NewRun"), "zeus.EnsembleSampler": lab.raiser("NewRun"), "kombine.Sampler": lab.raiser("NewRun"), "emcee.__version__": "3.1",
                   "kombine.SerialPool": lambda i, a, k: pool("serial"), "packaging.version.parse": lambda i, a, k: const(int(a[0].split(".")[0]))})
    pos = Arr(Arr([sym("i%d%s" % (w, k)) for k in lab.order]) for w in range(2))
    kw = dict(nwalkers=const(2), iterations=const(5), nburn=const(1), pos0=pos)
    first = lab.make(name, resume=resume, **kw)
    p = pool("first")
    first.attrs["pool"] = p
    done = 3
    point = lambda w, s: Arr([sym("c%d_%d_%d" % (w, s, k)) for k in range(3)])     # noqa: E731
    junk = Arr([sym("junk%d" % k) for k in range(3)])
    asked = []

    def run(i, a, k):
        asked.append((k.get("initial_state", k.get("start", k.get("p0"))), k.get("iterations")))
        raise PyExc("Continued")

    smp = Chain("%s sampler" % kind, {"pool": p, "seen": sym("seen"), "distribute": None}, {"sample": run, "get_last_sample": lambda i, a, k: Arr(point(w, done - 1) for w in range(2))})

    def advance(n):
        full = 5 if kind != "zeus" else n
        smp.attrs["blobs"] = Arr(Arr(Arr([sym("ll%d_%d" % (w, s)), sym("lp%d_%d" % (w, s))]) for w in range(2)) for s in range(n))
        if kind == "kombine":
            smp.attrs["_chain"] = Arr(Arr(point(w, s) if s < n else junk for w in range(2)) for s in range(full))
        else:
            smp.attrs["_chain"] = Arr(Arr(point(w, s) if s < n else junk for s in range(full)) for w in range(2))
    advance(2)
    first.attrs["_sampler"] = smp
    it.method(first, "write_current_state")
    advance(done)
    d.mark()
    it.method(first, "write_current_state")
    out = [("the pool of the running sampler after a checkpoint", smp.attrs.get("pool"), p)]
    d.reads = []
    second = lab.make(name, resume=resume, **kw)
    status = None
    try:
        it.method(second, "run_sampler")
    except PyExc as e:
        status = e.name
    return d, out, second, status, asked, Arr(point(w, done - 1) for w in range(2))


def case_ensemble(prog, dec, name):
    d, out, second, status, asked, last = ensemble(prog, dec, name)
    reads = list(d.reads)
    out.append(("what the second run does", status, "Continued"))
    if asked:
        out += [("the positions the walkers continue from", asked[0][0], last), ("the steps that remain", asked[0][1], const(2))]
    s = second.attrs.get("_sampler")
    if isinstance(s, Obj):
        out.append(("the restored sampler", s.attrs.get("seen"), sym("seen")))
    return d, reads, out


def optout_ensemble(prog, dec, name):
    return [("what a run with resume=False does", ensemble(prog, dec, name, False)[3], "NewRun")]


def mcmc(prog, dec, resume=True, other=False):
    lab = fresh(prog, dec)
    d = Disk(lab)
    it = lab.it
    cls, inner = prog.classes.get(PT + "Bilby_MCMC"), prog.classes.get(PT + "BilbyPTMCMCSampler")
    if cls is None or inner is None:
        raise Undecided("bilby_mcmc")
    it.ext[PT + "BilbyPTMCMCSampler.__init__"] = lab.raiser("NewRun")
    it.ext["inspect.stack"] = lambda i, a, k: [T([]), Obj("frame", {"function": "?"})]

    def make(**kw):
        return it.new(cls, [lab.like, lab.pd], dict({"outdir": "o", "label": "l", "skip_import_verification": True, "soft_init": True, "check_point_plot": False, "resume": resume}, **kw))
    first = make()
    p = pool("first")
    first.attrs["pool"] = p
    state = {"swap_counter": {"temperature": sym("swaps")}, "sampling_time": sym("spent"), "_nsamples_dict": {}, "ln_z_dict": {"a": sym("lnz")}}
    # a chain set without chains: its samplers only matter through what the checkpoint keeps of them
    chain = Obj("chain", {"position": const(40), "steps": Arr([sym("x0"), sym("x1")])})
    member = Obj("member", {"chain": chain}, {"set_convergence_inputs": lambda i, a, k: None})
    ps = Obj(inner, dict(state, pool=p, pt_inputs=first.attrs["pt_inputs"], convergence_inputs=first.attrs["convergence_inputs"], pt_rejection_sample=False, sampler_dictionary={"0": member},
                         sampler_list_of_tempered_lists=[[member]]))
    first.attrs["ptsampler"] = ps
    it.ext[PT + "BilbyPTMCMCSampler.set_convergence_inputs"] = lambda i, a, k: None
    it.ext[PT + "Bilby_MCMC.get_setup_string"] = lambda i, a, k: ""
    it.method(first, "write_current_state")
    state = dict(state, sampling_time=sym("spent_later"), swap_counter={"temperature": sym("swaps_later")})
    ps.attrs.update(it.deepcopy(state, {}))
    d.mark()
    it.method(first, "write_current_state")
    out = [("the pool of the running sampler after a checkpoint", ps.attrs.get("pool"), p)]
    d.reads = []
    kw = {"L1steps": const(77)} if other == "L1" else {"ntemps": const(3)} if other else {}
    second = make(**kw)
    q = pool("second")
    second.attrs["pool"] = q
    status = None
    try:
        it.method(second, "setup_chain_set")
    except PyExc as e:
        status = e.name
    return d, out, second, status, state, q


def case_mcmc(prog, dec, name):
    d, out, second, status, state, q = mcmc(prog, dec)
    reads = list(d.reads)
    out.append(("what the second run does", status, None))
    s = second.attrs.get("ptsampler")
    if isinstance(s, Obj):
        for n, v in state.items():
            out.append(("the restored %s" % n, s.attrs.get(n), v))
        out.append(("the restored sampler's pool", s.attrs.get("pool"), q))
    else:
        out.append(("the restored sampler", s, "an object"))
    return d, reads, out


def optout_mcmc(prog, dec, name):
    return [("what a run with resume=False does", mcmc(prog, dec, False)[3], "NewRun"), ("what a run with resume=False and other temperatures does", mcmc(prog, dec, False, True)[3], "NewRun"),
            ("what resuming with other temperatures does", (mcmc(prog, dec, True, True)[3] or "").split(".")[-1], "ResumeError")]


def clock(prog, dec, name):
    """the file with the time spent, written by the samplers that run an external program"""
    lab = fresh(prog, dec)
    d = Disk(lab)
    it = lab.it
    first = lab.make(name, temporary_directory=False)
    steps = ("_verify_kwargs_against_default_kwargs", "_setup_run_directory", "_check_and_load_sampling_time_file", "_calculate_and_save_sampling_time")
    for s in (first,):
        for n in steps[:3]:
            it.method(s, n)
        s.attrs["start_time"] = it.apply(it.ext["time.time"], [], {}) if not callable(it.ext["time.time"]) else lab.seconds(it, [], {})
    began = lab.clock
    it.method(first, steps[3])
    d.mark()
    it.method(first, steps[3])
    spent = lab.clock - began
    lab.clock += 1000
    d.reads = []
    second = lab.make(name, temporary_directory=False)
    for n in steps[:3]:
        it.method(second, n)
    reads = list(d.reads)
    out = [("the sampling time read back", second.attrs.get("total_sampling_time"), const(spent))]
    second.attrs["start_time"] = lab.seconds(it, [], {})
    began = lab.clock
    d.many = True
    it.method(second, steps[3])
    out.append(("the total sampling time", second.attrs.get("total_sampling_time"), const(spent + lab.clock - began)))
    return d, reads, out


def reweight(prog, dec, name):
    """the file reweighting keeps of the weights it has computed"""
    f = prog.by_qual.get(q01.R + "get_weights_for_reweighting")
    b = q01.Lab(prog, dec)
    d = Disk(b)
    b.it.ext.update({"numpy.genfromtxt": d.table, "numpy.loadtxt": d.table, "tqdm.auto.tqdm": lambda i, a, k: a[0]})
    k = q01.args(b, (q01.NEWL, q01.NEWP), (None, None))
    k.update(resume_file="o/resume.txt", n_checkpoint=const(1))
    d.mark()
    post = lambda: [Obj("result", {"posterior": b.frame()})]     # noqa: E731
    first = b.it.callf(f, post(), k)
    again = b.it.callf(f, post(), k)
    return d, list(d.reads), [("the weights computed from a complete file", again, first)]


def rebuild(prog, dec, name, block=None):
    """the cache of reconstructed marginalised parameters"""
    f = prog.by_qual.get("bilby.gw.conversion.generate_posterior_samples_from_marginalized_likelihood")
    lab = fresh(prog, dec)
    d = Disk(lab)
    it = lab.it
    rows = 5
    stop = [3]

    def fill(i, a, k):
        ii, row, seed = a[0]
        x, y = i.getitem(row, "a"), i.getitem(row, "b")
        if stop and x == sym("a%d" % stop[0]):
            raise PyExc("KeyboardInterrupt")
        return T([A.fn("@rebuilt", x, y), A.fn("@other", x)])
    like = Obj("likelihood", {"outdir": "o", "label": "l", "_marginalized_parameters": ["distance", "phase"]})
    it.ext.update({"bilby.gw.conversion.fill_sample": fill, "bilby.core.utils.random.generate_seeds": lambda i, a, k: [sym("seed%d" % m) for m in range(integer(a[0]))],
                   "bilby.gw.conversion.command_line_args": Obj("cmd", {"clean": False})})
    data = lambda: Table({n: Arr(sym("%s%d" % (n, i)) for i in range(rows)) for n in "ab"})     # noqa: E731
    d.mark()
    status = None
    try:
        it.callf(f, [data(), like], {"block": const(2)})
    except PyExc as e:
        status = e.name
    out = [("the first run", status, "KeyboardInterrupt")]
    stop.clear()
    got = it.callf(f, [data(), like], {"block": const(2 if block is None else block)})
    for n, fn in (("distance", "@rebuilt"), ("phase", "@other")):
        want = Arr(A.fn(fn, *[sym("%s%d" % (c, i)) for c in ("ab" if fn == "@rebuilt" else "a")]) for i in range(rows))
        out.append(("the reconstructed %s" % n, Arr(got.items[n]) if n in got.items else None, want))
    return d, list(d.reads), out


CASES = {"dynesty.Dynesty": case_nested, "dynamic_dynesty.DynamicDynesty": case_nested, "ptemcee.Ptemcee": case_tempered, "emcee.Emcee": case_ensemble, "zeus.Zeus": case_ensemble,
         "kombine.Kombine": case_ensemble, "bilby_mcmc": case_mcmc, "pymultinest.Pymultinest": clock, "ultranest.Ultranest": clock}
OPTOUT = {"dynesty.Dynesty": optout_nested, "ptemcee.Ptemcee": optout_tempered, "emcee.Emcee": optout_ensemble, "zeus.Zeus": optout_ensemble, "kombine.Kombine": optout_ensemble,
          "bilby_mcmc": optout_mcmc}


def anchor(prog, name, *methods):
    c = prog.classes.get(PT + "Bilby_MCMC" if name == "bilby_mcmc" else S + name)
    for m in methods:
        f = c and c.find(m)
        if f is not None:
            return f
    return None


def compare(checks):
    for what, got, want in checks:
        d = same(want, got, what)
        if d:
            return d
    return None


def check(ctx):
    prog = ctx.prog
    k = 0 if ctx.tier == "selftest" else 1
    ctx.rule("atomic", "a crash at any point leaves the last complete checkpoint in place", floor=3 * k)
    ctx.rule("resume", "the resumed sampler has the state that was written", floor=3 * k)
    ctx.rule("optout", "a run with resume=False ignores the checkpoint, and one of another set-up is refused", floor=2 * k)
    r = Rule(ctx)
    for name, f in CASES.items():
        a = anchor(prog, name, *(("_calculate_and_save_sampling_time",) if f is clock else ("write_current_state",)))
        if a is None:
            continue

        def thunk(dec, name=name, f=f):
            return f(prog, dec, name)

        def atomic(got, dec):
            d, reads, out = got
            if not reads:
                return "the resumed run reads no file"
            return next((x for x in (d.crash(n) for n in dict.fromkeys(reads)) if x), None)
        res = r.run(thunk)
        r.report("atomic", name, a, res, atomic)
        r.report("resume", name, a, res, lambda got, dec: compare(got[2]))
    for name, qual, f in (("reweighting", q01.R + "get_weights_for_reweighting", reweight),
                          ("reconstruction", "bilby.gw.conversion.generate_posterior_samples_from_marginalized_likelihood", rebuild),
                          ("reconstruction in other blocks", "bilby.gw.conversion.generate_posterior_samples_from_marginalized_likelihood", lambda p, d, n: rebuild(p, d, n, 1))):
        a = prog.by_qual.get(qual)
        if a is None:
            continue
        res = r.run(lambda dec, name=name, f=f: f(prog, dec, name))
        r.report("atomic", name, a, res, lambda got, dec: next((x for x in (got[0].crash(n, True) for n in dict.fromkeys(got[1])) if x), None) if got[1] else "nothing is read")
        r.report("resume", name, a, res, lambda got, dec: compare(got[2]))
    for name, f in OPTOUT.items():
        a = anchor(prog, name, "setup_sampler", "setup_chain_set", "run_sampler")
        if a is not None:
            r.report("optout", name, a, r.run(lambda dec, name=name, f=f: f(prog, dec, name)), lambda got, dec: compare(got))
