"""Implementation driver: executes the public calls of a scenario (one JSON object per line on
stdin) against the code under test and records what each call returned.  It contains no expected
values; whether the recorded trace is allowed is decided by the specification (TLC)."""
import os, sys, json, copy, io, subprocess, shutil, tempfile, warnings
sys.path.insert(0, os.environ["VERIF_BUILD"])
sys.path.append(os.path.dirname(os.path.abspath(__file__)))
out = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
warnings.simplefilter("ignore")
from core import num, unnum
BUILD = os.environ["VERIF_BUILD"]

IMPORT_ERROR = None
try:
    import numpy as np
    np.seterr(all="ignore")
except Exception as e:      # the environment itself is broken
    print(json.dumps(dict(st="machinery", ex="numpy: %r" % e)), file=out, flush=True)
    sys.exit(1)
MODS = {}
for _m in ("materials", "bessel_sk", "helper_functions", "scattering", "stratified_sphere_scattering", "translation",
           "cython_gaunt", "matrix_balancing", "geometry", "thermodynamics", "PFA", "raw_PFA",
           "data_inter_extrapolation", "materials_converter"):
    try:
        MODS[_m] = __import__(_m)
    except Exception as e:
        IMPORT_ERROR = IMPORT_ERROR or "%s: %r" % (_m, e)


class M_:
    def __getattr__(self, k):
        if k not in MODS:
            raise ImportError(IMPORT_ERROR)
        return MODS[k]


M = M_()


def isdec(x):
    return isinstance(x, list) and len(x) == 2 and type(x[0]) is int and type(x[1]) is int


def isnum(x):
    """a number computed by the specification (see Num.tla)"""
    return isinstance(x, list) and len(x) == 3 and isinstance(x[2], list) and len(x[2]) == 7 and type(x[0]) is int


INTS = False        # whether whole numbers are passed as Python ints and integer arrays


def dec(x):
    if isinstance(x, str):
        return {"inf": np.inf, "nan": np.nan, "none": None}.get(x, x)
    if isdec(x):
        y = float("%de%d" % (x[0], x[1]))
        return int(y) if INTS and y.is_integer() and abs(y) < 1e6 else y
    if isnum(x):
        return unnum(x)
    return x


def kw(a, **names):
    """optional keyword arguments present in the scenario"""
    return {py: f(a(nm)) for py, (nm, f) in names.items() if a(nm) is not None}


def limited(kmax):
    """a user material whose response is only known up to kmax: asking beyond raises"""
    class Limited(M.materials.LorentzMaterial):
        def epsilon(self, k):
            if np.max(k) > kmax:
                raise ValueError("no data beyond %s" % kmax)
            return M.materials.LorentzMaterial.epsilon(self, k)
    return Limited


class Env:
    def __init__(self, scn):
        self.scn, self.o, self.mats = scn, {}, {}
        self.kept = []      # results returned so far: they belong to the caller

    def mat(self, j):
        key = json.dumps(j, sort_keys=True)
        if key not in self.mats:
            if j["name"] == "#bad":
                m = object()
            elif j["name"]:
                m = getattr(M.materials, j["name"])
            else:
                e = [tuple(float(dec(x)) for x in osc) for osc in j["e"]]
                b = tuple(float(dec(x)) for x in j["b"])
                cls = M.materials.LorentzSmithMaterial if j["kind"] == "smith" else M.materials.LorentzMaterial
                if j["kind"] == "limited":
                    cls = limited(dec(j["kmax"]))
                m = cls(e, b)
            self.mats[key] = m
        return self.mats[key]

    def arr(self, k):
        if isinstance(k, str):
            return self.o[k]
        if isdec(k):
            return np.array([dec(k)])
        v = [dec(x) for x in k]
        return np.array(v, dtype=int if v and all(type(x) is int for x in v) else float)

    def mtx(self, x):
        """nested list of decimals -> float array"""
        f = lambda y: dec(y) if isdec(y) else [f(z) for z in y]
        return np.array(f(x), dtype=float)


def snap(x):
    if isinstance(x, np.ndarray):
        return ("a", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(y) for y in x))
    if isinstance(x, (int, float, str, type(None), bool)):
        return ("v", repr(x))
    if isinstance(x, MODS["materials"].Material):
        return ("m", id(x), repr(getattr(x, "e_properties", 0)), repr(getattr(x, "b_properties", 0)))
    if isinstance(x, MODS["geometry"].SphereSphere):
        return ("g", tuple(snap(getattr(x, n, None)) for n in
                           ("r1", "r2", "L", "mat1", "mat2", "mat3", "lmax", "lssmax", "precision", "evaluation",
                            "forceFlag", "l_offset", "r1_i", "r2_i", "r1_a", "r2_a", "mat1core", "mat2core",
                            "mat1coat", "mat2coat")))
    if isinstance(x, MODS["thermodynamics"].finiteT):
        return ("t", tuple(snap(getattr(x, n, None)) for n in
                           ("deltaT", "nmax", "Tmax", "analytic_n0", "nprocs", "forceFlag", "maxstep", "geometry")))
    return ("o", id(x))


def enc(r):
    a = np.asarray(r)
    if a.dtype == object or a.dtype.kind not in "fiubc":
        try:
            a = np.asarray(r, dtype=float)
        except Exception:
            return dict(st="other", sh=[], v=[], ex=str(type(r)))
    if a.dtype.kind == "c":
        return dict(st="complex", sh=list(a.shape), v=[], ex="")
    a = a.astype(float)
    if not np.isfinite(a).all():
        return dict(st="nonfinite", sh=list(a.shape), v=[], ex="")
    return dict(st="ok", sh=list(a.shape), v=[num(x) for x in a.ravel()], ex="")


# ------------------------------------------------------------------ operations
OPS = {}


def op(f):
    OPS[f.__name__[2:]] = f
    return f


def radius(E, r):
    """a list with one entry is a solid sphere"""
    return dec(r[0]) if len(r) == 1 else [dec(x) for x in r]


@op
def o_geom(E, a, W):
    r1, r2 = a("r1"), a("r2")
    R1, R2 = radius(E, r1), radius(E, r2)
    m1, m2, m3 = [E.mat(x) for x in a("m1")], [E.mat(x) for x in a("m2")], E.mat(a("m3"))
    # layered spheres: list core .. shell, surrounding medium appended
    M1 = m1[0] if len(m1) == 1 and len(r1) == 1 else m1 + ([m3] if a("append", True) else [])
    M2 = m2[0] if len(m2) == 1 and len(r2) == 1 else m2 + ([m3] if a("append", True) else [])
    k = kw(a, lmax=("lmax", dec), lssmax=("lss", dec), precision=("prec", dec), l_offset=("loff", int),
           evaluation=("eval", str), forceFlag=("ff", int))
    W += [R1, R2, M1, M2]
    g = M.geometry.SphereSphere(R1, R2, dec(a("L")), M1, M2, m3, **k)
    E.o[a("as")] = g
    E.o["#lists" + a("as")] = [x for x in (R1, R2, M1, M2) if isinstance(x, list)]
    return [g.lmax, g.lssmax]


@op
def o_coated(E, a, W):
    c = [dec(x) for x in a("r1")] + [dec(x) for x in a("r2")]
    m1, m2 = [E.mat(x) for x in a("m1")], [E.mat(x) for x in a("m2")]
    g = M.geometry.CoatedSphereSphere(c[0], c[1], m1[0], m1[1], c[2], c[3], m2[0], m2[1], dec(a("L")),
                                      E.mat(a("m3")), a("lmax"), a("lss"))
    if a("prec") is not None:
        g.precision = dec(a("prec"))
    E.o[a("as")] = g
    return [g.lmax, g.lssmax]


@op
def o_attrs(E, a, W):
    g = E.o[a("o")]
    return [float(getattr(g, n)) for n in a("names")]


@op
def o_msum(E, a, W):
    g, k = E.o[a("o")], E.arr(a("k"))
    W += [g, k]
    return g.mSumme(k)


@op
def o_msum0(E, a, W):
    g = E.o[a("o")]
    W += [g]
    return g.mSumme_k0()


@op
def o_single(E, a, W):
    g, k = E.o[a("o")], E.arr(a("k"))
    W += [g, k]
    return g.single_m(a("m"), k)


@op
def o_singles(E, a, W):
    g, k = E.o[a("o")], E.arr(a("k"))
    W += [g, k]
    return np.array([np.ravel(g.single_m(m, k)) for m in (a("ms") or range(g.lmax + 1))])


@op
def o_single0(E, a, W):
    g = E.o[a("o")]
    W += [g]
    return g.single_m_k0(a("m"))


@op
def o_singles0(E, a, W):
    g = E.o[a("o")]
    W += [g]
    return np.array([np.ravel(g.single_m_k0(m)) for m in (a("ms") or range(g.lmax + 1))])


@op
def o_block(E, a, W):
    g, k = E.o[a("o")], E.arr(a("k"))
    W += [g, k]
    return np.array(getattr(g, "blockmatrices" + a("var", ""))(a("m"), k))


@op
def o_super(E, a, W):
    g, k = E.o[a("o")], E.arr(a("k"))
    W += [g, k]
    return g.supermatrix(a("m"), k)


@op
def o_traces(E, a, W):
    """traces of the round-trip matrices returned for every projection"""
    g, k = E.o[a("o")], E.arr(a("k"))
    W += [g, k]
    return np.array([np.trace(g.supermatrix(m, k), axis1=1, axis2=2) for m in range(g.lmax + 1)])


@op
def o_oneround(E, a, W):
    g, k = E.o[a("o")], E.arr(a("k"))
    W += [g, k]
    return g.mSum_oneRoundtrip(k, **kw(a, mmax=("mmax", lambda x: x)))


@op
def o_rounds(E, a, W):
    g, k = E.o[a("o")], E.arr(a("k"))
    W += [g, k]
    return g.mSum_roundtrips(k, **kw(a, order=("order", lambda x: x)))


@op
def o_arbitrary(E, a, W):
    g, m = E.o[a("o")], E.mtx(a("A"))
    W += [g, m]
    return g.arbitrary_roundtrips(m, a("order"), 0)


# thermodynamics
@op
def o_T(E, a, W):
    k = kw(a, analytic_n0=("an0", bool), nprocs=("nprocs", dec))
    g = E.o.get(a("g"), a("g"))
    if g == "#duck":        # has everything a geometry has, but is not one
        import types
        h = E.o[a("like")]
        g = types.SimpleNamespace(**{n: getattr(h, n) for n in
                                     ("r1", "r2", "L", "mat1", "mat2", "mat3", "lmax", "lssmax", "mSumme", "mSumme_k0")})
    t = getattr(M.thermodynamics, a("cls", "finiteT"))(dec(a("dT")), dec(a("nmax")), dec(a("Tmax")), g, **k)
    E.o[a("as")] = t
    return [t.nmax, t.maxstep]


@op
def o_fmats(E, a, W):
    t = E.o[a("o")]
    W += [t]
    return t.get_f_matsubaras(a("nmin", 0), **kw(a, schrittweite=("step", dec)))


@op
def o_free_energy(E, a, W):
    t = E.o[a("o")]
    W += [t]
    return t.free_energy()


@op
def o_entropy(E, a, W):
    t = E.o[a("o")]
    W += [t]
    return t.entropy()


@op
def o_force(E, a, W):
    t = E.o[a("o")]
    W += [t]
    return t.force()


@op
def o_e0(E, a, W):
    t = E.o[a("o")]
    W += [t]
    return t.e0(**{n: dec(a(n)) for n in "ab" if a(n) is not None})


@op
def o_F_alle(E, a, W):
    t, k = E.o[a("o")], E.arr(a("k"))
    W += [t, k]
    return t.F_alle(k)


@op
def o_slicewise(E, a, W):
    c = [dec(x) for x in a("poly")]
    calls = []

    def f(n):
        calls.append([int(x) for x in n])
        return sum(cc * n.astype(float) ** p for p, cc in enumerate(c))
    r = M.thermodynamics.slicewise_eval(f, a("nmin"), a("nmax"), *([dec(a("step"))] if a("step") is not None else []))
    E.extra = dict(calls=calls)
    return r


@op
def o_badk(E, a, W):
    """an evaluation with something that is not an array of wavenumbers"""
    g = E.o[a("o")]
    W += [g]
    return g.mSumme({"text": np.array(["x"]), "none": None, "empty": np.array([])}[a("what")])


@op
def o_scramble(E, a, W):
    """the caller overwrites the lists it passed when constructing the geometry"""
    for l in E.o.get("#lists" + a("o"), []):
        if isinstance(l[0], float):
            l[0] = l[0] / 2
        else:
            l[0] = M.materials.Polystyrene if l[0] is not M.materials.Polystyrene else M.materials.Gold
    return 0


@op
def o_scribble(E, a, W):
    """the caller overwrites the results it was given"""
    for x, _ in E.kept:
        for y in x if isinstance(x, list) else [x]:
            if isinstance(y, np.ndarray) and y.flags.writeable:
                y[...] = 7
    E.kept = []
    return 0


# named arrays
@op
def o_arr(E, a, W):
    E.o[a("as")] = np.array(E.arr(a("v")), dtype=float)
    return E.o[a("as")]


@op
def o_setarr(E, a, W):
    E.o[a("o")][...] = E.arr(a("v"))
    return E.o[a("o")]


@op
def o_getarr(E, a, W):
    return E.o[a("o")]


# scattering
def scat(E, a):
    return M.scattering.scattering(E.mat(a("m1")[0]), E.mat(a("m2")[0]))


@op
def o_mie(E, a, W):
    k = E.arr(a("k"))
    W += [k]
    s = E.o.get(a("o")) or scat(E, a)
    return s.mie(k, a("lmin"), a("lmax"), dec(a("r")))


@op
def o_mie_int(E, a, W):
    k = E.arr(a("k"))
    W += [k]
    s = E.o.get(a("o")) or scat(E, a)
    return s.mie_internal(k, a("lmin"), a("lmax"), dec(a("r")))


@op
def o_mie_k0(E, a, W):
    return scat(E, a).mie_k0(a("lmin"), a("lmax"), dec(a("r")))


@op
def o_mie_int_k0(E, a, W):
    return scat(E, a).mie_internal_k0(a("lmin"), a("lmax"), dec(a("r")))


@op
def o_strat(E, a, W):
    k = E.arr(a("k"))
    ms, rs = [E.mat(x) for x in a("ms")], [dec(x) for x in a("rs")]
    if a("tuple"):
        ms = tuple(ms)
    W += [k, ms, rs]
    s = M.stratified_sphere_scattering.StratifiedMieScattering(ms, rs)
    r = s.mie_stratified(k, a("lmin"), a("lmax"))
    if a("twice"):
        r = s.mie_stratified(k, a("lmin"), a("lmax"))
    return r


@op
def o_miecoat(E, a, W):
    k = E.arr(a("k"))
    ms, rs = [E.mat(x) for x in a("ms")], [dec(x) for x in a("rs")]
    W += [k]
    return M.scattering.coated_miescattering(*ms).mie_coated(k, a("lmin"), a("lmax"), *rs)


@op
def o_fresnel(E, a, W):
    return np.array([float(np.ravel(x)[0]) for x in scat(E, a).fresnel(dec(a("kp")), dec(a("k")))])


# translation
@op
def o_trans(E, a, W):
    k = E.arr(a("k"))
    W += [k]
    t = M.translation.translation(a("lmax"), a("lss"), a("m"), E.mat(a("m3")), dec(a("L")), k, a("ext"))
    return np.array(t.trans_ab())


@op
def o_gaunt(E, a, W):
    return M.cython_gaunt.gaunt(a("l1"), a("l2"), a("m"))


# Bessel
@op
def o_lnk(E, a, W):
    x = E.arr(a("x"))
    W += [x]
    return M.bessel_sk.lnknu(x, dec(a("lmax")))


@op
def o_lnik(E, a, W):
    x = E.arr(a("x"))
    W += [x]
    return np.array(M.bessel_sk.lniknu(x, dec(a("lmax"))))


@op
def o_miebes(E, a, W):
    x = E.arr(a("x"))
    W += [x]
    return np.array(M.bessel_sk.mie_bessels(x, a("lmin"), dec(a("lmax"))))


@op
def o_trbes(E, a, W):
    x = E.arr(a("x"))
    W += [x]
    return M.bessel_sk.trans_bessels(x, dec(a("lmax")), a("ext"))


@op
def o_ifrac(E, a, W):
    x, nu = E.arr(a("x")), np.array([l + 0.5 for l in a("ls")])
    W += [x, nu]
    return M.bessel_sk.i_fraction(x, nu)


# materials
@op
def o_eps(E, a, W):
    m = E.mat(a("mat"))
    k = dec(a("k")) if a("scalar") else E.mtx(a("k"))
    W += [k, m]
    return m.epsilon(k)


@op
def o_mu(E, a, W):
    m = E.mat(a("mat"))
    k = dec(a("k")) if a("scalar") else E.mtx(a("k"))
    W += [k, m]
    return m.mu(k)


@op
def o_flags(E, a, W):
    m = E.mat(a("mat"))
    f = lambda n: int(bool(getattr(m, n))) if hasattr(m, n) else 2
    return [f("is_perfect_conductor"), f("is_dielectric"), f("is_sigma_finite"), f("is_magnetic")]


# algebra
@op
def o_balance(E, a, W):
    m = E.mtx(a("A"))
    m0 = m.copy()
    return np.array([m0, M.matrix_balancing.balance(m, *([dec(a("conv"))] if a("conv") is not None else []))])


@op
def o_convert(E, a, W):
    p = [tuple(dec(x) for x in o) if a("tup") else [dec(x) for x in o] for o in a("osc")]
    W += [p]
    return np.array(M.materials_converter.transform(p), dtype=float)


@op
def o_alg(E, a, W):
    ms = [E.mtx(x) for x in a("args")]
    W += ms
    f = getattr(M.geometry, a("fn"))
    return f(ms) if a("aslist") else f(*ms, *[dec(x) for x in a("more", [])])


# plane-plane
def pfa(E, a):
    mod = M.raw_PFA if a("mod") == "raw_PFA" else M.PFA
    return mod.SphereSpherePFA(E.mat(a("m1")[0]), E.mat(a("m2")[0]), E.mat(a("m3")))


@op
def o_pfa(E, a, W):
    p = pfa(E, a)
    args = [E.arr(x) if isinstance(x, list) and not isdec(x) and not isnum(x) else dec(x) for x in a("args")]
    if a("aslist"):
        args = [list(x) if isinstance(x, np.ndarray) else x for x in args]
    W += [x for x in args if isinstance(x, np.ndarray)]
    opts = dict(a("opts", {}))
    if a("sh") is not None and not a("nosh"):
        opts["n0_shielding"] = bool(a("sh"))
    r = getattr(p, a("fn"))(*args, **opts)
    if a("twice"):
        r = getattr(p, a("fn"))(*args, **opts)
    return np.asarray(r, dtype=float)


# helpers
@op
def o_get_lmax(E, a, W):
    more = [a("loff")] if a("loff") is not None else []
    r = M.geometry.get_lmax(dec(a("ra")), dec(a("rb")), dec(a("L")), dec(a("prec")), *more)
    E.extra = dict(isint=int(isinstance(r, (int, np.integer))))
    return r


@op
def o_deriv(E, a, W):
    f, x = E.arr(a("f")), E.arr(a("x"))
    W += [f, x]
    return M.helper_functions.num_derivative(f, x, **kw(a, interpolate=("ip", bool), multiplier=("mult", int)))


@op
def o_lfac(E, a, W):
    return M.helper_functions.lfac(E.arr(a("x")) if not isdec(a("x")) else dec(a("x")))


@op
def o_ln2dbl(E, a, W):
    return M.helper_functions.ln_2dbl(E.arr(a("x")) if not isdec(a("x")) else dec(a("x")))


@op
def o_interp(E, a, W):
    x, y, xn = E.arr(a("x")), E.arr(a("y")), E.arr(a("xn"))
    W += [x, y, xn]
    d = M.data_inter_extrapolation.data_interp_extrap(x, y)
    return getattr(d, a("fn"))(xn) if a("fn") != "interpolate" else d.interpolate(xn)[0]


# jobs: the audit hook lets another job win the race for a result file: just before the job creates a new file in its
# directory, a file of that name appears
CODE = ("import sys,runpy,os; sys.path.insert(0, %r); sys.argv=sys.argv[1:]\n"
        "race=int(os.environ.get('VERIF_RACE','0')); busy=[0]; here=os.path.realpath(os.getcwd())\n"
        "def hook(ev, a):\n"
        "    global race\n"
        "    if race < 1 or busy[0] or ev not in ('open','os.rename','os.link'): return\n"
        "    p = a[0] if ev == 'open' else a[1]\n"
        "    if ev == 'open' and not (a[2] & 3): return\n"
        "    if not isinstance(p, (str, bytes)): return\n"
        "    p = os.path.abspath(os.fsdecode(p))\n"
        "    if os.path.dirname(os.path.realpath(p)) != here or os.path.exists(p) or 'res' not in os.path.basename(p): return\n"
        "    busy[0] = 1; race -= 1\n"
        "    with open(p, 'w') as h: h.write('# result of another job\\n')\n"
        "    sys.stderr.write('@race ' + os.path.basename(p) + '\\n')\n"
        "    busy[0] = 0\n"
        "if race: sys.addaudithook(hook)\n"
        "runpy.run_path(os.path.join(%r,'worker.py'), run_name='__main__')" % (BUILD, BUILD))


def cfgtext(E, cfg):
    t = ""
    for sec in cfg:
        t += "[%s]\n" % sec["name"]
        for o in sec["opts"]:
            t += "%s%s %s\n" % (o[0], sec.get("sep", ":"), o[1])
        t += "\n"
    return t


def parse_result(data):
    import re
    txt = data.decode("utf8", "replace")
    hdr = "\n".join(l for l in txt.splitlines() if l.startswith("#"))
    vals = []
    for l in txt.splitlines():
        if l.strip() and not l.startswith("#"):
            vals += [float(x) for x in l.split(",")]
    num_ = {}
    for key in ("r1", "r2", "d", "lmax", "l_offset", "lssmax", "nmax", "deltaT", "Tmax", "precision"):
        m = re.search(r"(?<![A-Za-z_])%s\s*[=:]\s*(\[[^\]]*\]|[^,\s]+)" % key, hdr)
        try:
            num_[key] = [num(float(x)) for x in m.group(1).strip("[]").split(",")]
        except Exception:
            num_[key] = []
    return "".join(hdr.split()), num_, vals


@op
def o_job(E, a, W):
    """run one job in the job directory of the scenario and record the effect on its files"""
    d = E.o.setdefault("#dir", None)
    if d is None:
        d = E.o["#dir"] = tempfile.mkdtemp(prefix="job", dir=os.getcwd())
    for f in a("pre", []):
        with open(os.path.join(d, f), "w") as h:
            h.write("# old %s\n" % f)
    cf = a("cfgname", "job.config")
    if a("cfg"):
        with open(os.path.join(d, cf), "w") as h:
            h.write(cfgtext(E, a("cfg")))
    before = {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}
    argv = ["worker.py"] + a("argv")
    env = dict(os.environ, VERIF_RACE=str(a("race", 0)), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMEXPR_MAX_THREADS="1")
    p = subprocess.run([sys.executable, "-c", CODE] + argv, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=200, env=env)
    after = {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}
    new = sorted(f for f in after if f not in before)
    raced = [l[6:] for l in p.stderr.decode("utf8", "replace").splitlines() if l.startswith("@race ")]
    other = [f for f in raced if after.get(f) == b"# result of another job\n"]
    mine = [f for f in new if f not in other]
    ex = dict(rc=int(p.returncode != 0), new=mine, lost=[f for f in raced if f not in other], hdr={}, said=[], nval=0,
              changed=sorted(f for f in before if after.get(f) != before[f]))
    vals = []
    for f in mine:
        try:
            txt, ex["hdr"], v = parse_result(after[f])
            ex["said"] = [int("".join(s.split()) in txt) for s in a("say", [])]
        except Exception as e:
            v = [float("nan")]
        vals += v
    ex["nval"] = len(vals)
    E.extra = ex
    return np.array(vals)


def step(E, scn, st):
    def a(n, d=None):
        return st[n] if n in st else scn.get(n, d)
    E.extra = None
    if IMPORT_ERROR:
        return dict(st="raise", ex="ImportError", msg=IMPORT_ERROR, sh=[], v=[], mut=0)

    # watch inputs: operations append the objects they pass to W before calling
    class Watch(list):
        def __init__(s):
            s.snaps = []

        def __iadd__(s, xs):
            for x in xs:
                s.append(x)
                s.snaps.append(snap(x))
            return s
    W = Watch()
    try:
        raw = OPS[st["op"]](E, a, W)
        r = enc(raw)
        if "arr" not in st["op"]:
            E.kept.append((raw, snap(raw)))
    except Exception as e:
        r = dict(st="raise", ex=type(e).__name__, msg=str(e)[:200], sh=[], v=[])
    try:
        r["mut"] = int(any(snap(x) != s for x, s in zip(W, W.snaps)) or any(snap(x) != s for x, s in E.kept))
    except Exception:
        r["mut"] = 1
    if E.extra:
        r["x"] = E.extra
    return r


def run(scn):
    """steps that carry the same value of "iso" are executed together in a process of their own in which nothing else
    has been computed; all others are executed here"""
    global INTS
    E = Env(scn)
    INTS = bool(scn.get("ints"))
    steps = scn["steps"]
    res = [None] * len(steps)
    groups = {}
    for st in steps:
        if st["op"] not in OPS:
            return dict(st="machinery", ex="unknown op " + st["op"])
    for j, st in enumerate(steps):
        if "iso" in st:
            groups.setdefault(st["iso"], []).append(j)
    for js in groups.values():
        out_ = pristine(scn, [steps[j] for j in js])
        for j, r in zip(js, out_):
            res[j] = r
    try:
        for j, st in enumerate(steps):
            if "iso" not in st:
                res[j] = step(E, scn, st)
    finally:
        d = E.o.get("#dir")
        if d:
            shutil.rmtree(d, ignore_errors=True)
    return dict(st="ok", res=res)


# ------------------------------------------------------------------ a process that has only imported the code
def send(fd, b):
    b = b"%d\n" % len(b) + b
    while b:
        b = b[os.write(fd, b):]


def recv(fd):
    n = b""
    while not n.endswith(b"\n"):
        c = os.read(fd, 1)
        if not c:
            return None
        n += c
    n, b = int(n), b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


def zygote():
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork():
        os.close(a)
        os.close(d)
        return b, c
    os.close(b)
    os.close(c)
    os.close(0)
    os.close(out.fileno())
    while True:
        q = recv(a)
        if q is None:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                global INTS
                scn = json.loads(q)
                E = Env(scn)
                INTS = bool(scn.get("ints"))
                send(d, json.dumps([step(E, scn, st) for st in scn["steps"]]).encode())
            except BaseException:
                os._exit(1)
            os._exit(0)
        if os.waitpid(pid, 0)[1]:
            send(d, b"null")


MEMO = {}


def pristine(scn, steps):
    q = json.dumps(dict(scn, steps=[{k: v for k, v in st.items() if k != "iso"} for st in steps], hist=0), sort_keys=True)
    if q not in MEMO:
        send(ZIN, q.encode())
        r = recv(ZOUT)
        r = json.loads(r) if r is not None else None
        MEMO[q] = r or [dict(st="crash", ex="", sh=[], v=[], mut=0)] * len(steps)
    return MEMO[q]


ZIN, ZOUT = zygote()
for line in sys.stdin:
    scn = json.loads(line)
    try:
        r = run(scn)
    except MemoryError:
        r = dict(st="crash", ex="MemoryError")
    print(json.dumps(r), file=out, flush=True)
