"""The obligations of every property: which function of /repo refines which reference definition."""
from fractions import Fraction

from vg.compare import Obl
from vg.domain import Dom
from vg.query import Query
from vg.random_sources import other_randomness

MC = "reliabilityassessment.monte_carlo."
DP = "reliabilityassessment.data_processing."
OBLS = {}


def D(**kw):
    out = {}
    for k, v in kw.items():
        out[k] = v if isinstance(v, Dom) else Dom(k, v)
    return out


def custom(name, decl, fn):
    return Dom(name, decl, fn)


def ob(prop, name, code, spec, dom, **kw):
    OBLS.setdefault(prop, []).append(Obl(name, code, spec, dom, **kw))


# ------------------------------------------------------------------ common domains
def _T():
    from vg import terms

    return terms


def inverse_free(v):
    return v


def perm(name, n):
    """a permutation of 0..n-1, index array"""

    def fn(val, idx, u):
        from vg.evalt import H

        if idx[0] < 0 or idx[0] >= val.size(n):
            return 0
        order = sorted(range(val.size(n)), key=lambda i: H(val.seed, name, "perm", i))
        return order[idx[0]]

    return Dom(name, "n[%s] 0..%s-1" % (n, n), fn)


def bus_pairs(name="LP"):
    """lines: number, from-area, to-area (distinct)"""

    def fn(val, idx, u):
        from vg.evalt import H

        i, c = idx
        if c == 0:
            return i
        n = val.size("NOAREA")
        a = H(val.seed, name, i, "a") % n
        if n == 1:
            return 0
        b = (a + 1 + H(val.seed, name, i, "b") % (n - 1)) % n
        if i == 0:
            a, b = (n - 1, (n - 1 + 1 + H(val.seed, name, i, "b") % (n - 1)) % n)  # every area number occurs
        return (a, b)[c - 1]

    return Dom(name, "n[NLINES,3] 0..NOAREA-1", fn)


def inj(name, n, m):
    """n distinct numbers below m"""

    def fn(val, idx, u):
        from vg.evalt import H

        order = sorted(range(val.size(m)), key=lambda i: H(val.seed, name, "perm", i))
        return order[idx[0] % len(order)]

    return Dom(name, "n[%s] 0..%s-1" % (n, m), fn)


JENT = "i[NOAREA,NOAREA] -1..NCON-1"
KS = "kernels:"

ob("P01", "hrstat", MC + "hrstat:hrstat", KS + "hrstat", D(
    NST="n 0..NFCST-1", MARGIN="i[NOAREA] -3..3", LSFLG="i[NOAREA] 0..3",
    LOLGHA="f[NOAREA,NFCST] 0..5", LOLGHP="f[NFCST] 0..5", LOLTHA="f[NOAREA,NFCST] 0..5", LOLTHP="f[NFCST] 0..5",
    MGNGHA="f[NOAREA,NFCST] 0..5", MGNGHP="f[NFCST] 0..5", MGNTHA="f[NOAREA,NFCST] 0..5", MGNTHP="f[NFCST] 0..5"))
ob("P02", "pkstat", MC + "pkstat:pkstat", KS + "pkstat", D(
    NST="n 0..NFCST-1", MARGIN="i[NOAREA] -3..3",
    LOLGPA="f[NOAREA,NFCST] 0..5", LOLGPP="f[NFCST] 0..5", LOLTPA="f[NOAREA,NFCST] 0..5", LOLTPP="f[NFCST] 0..5",
    MGNGPA="f[NOAREA,NFCST] 0..5", MGNGPP="f[NFCST] 0..5", MGNTPA="f[NOAREA,NFCST] 0..5", MGNTPP="f[NFCST] 0..5"))


def squares(val, idx, u):
    """sum of squares; sometimes such that the standard error equals the threshold"""
    if u % 3:
        return val.gen("f", 0, 40, u // 3)
    n, tot, last, test = (val.name_value(k) for k in ("IYEAR", "SUM", "XLAST", "CVTEST"))
    mean = tot / n
    limit = mean * (test or Fraction("0.025"))
    return n * (n * limit * limit + mean * mean) - (tot - last) ** 2


ob("P07", "cvchk", MC + "cvchk:cvchk", KS + "cvchk", D(
    CLOCK="f 0..5", FINISH="f 0..5", IYEAR="n 1..9", CVTEST="f 0..1", SUM="f 0..20", XLAST="f 0..4", SSQ=custom("SSQ", "f 0..40", squares)),
    effects=False)


def cumulated(name, seeds, count, axis):
    """cumulated probabilities of every unit or line: increasing; sometimes exactly the number drawn next"""

    def fn(val, idx, u):
        from fractions import Fraction
        from vg.evalt import H

        k, i = idx[axis], idx[1 - axis]
        out = []
        for j in range(count):
            h = H(val.seed, name, i, j)
            if h % 5 == 0:
                s = val.elem(seeds, (i,))
                out.append((s * 65539 % 2147483648) * Fraction("4.656613e-10"))
            else:
                out.append(val.gen("f", 0, 1, h // 5))
        out.sort()
        return out[min(max(k, 0), count - 1)]

    return fn


def stream(name):
    """present numbers of the random streams: the next ones are often near 0, near 1 or near a constant of the code"""

    def fn(val, idx, u):
        top = 2147483648
        k = u % 4
        u //= 4
        if k == 0 and val.pool:
            c = [x for x in val.pool if 0 < x < 1]
            if c:
                nxt = int(c[u % len(c)] * top) + (u // 64 % 2000 - 1000) * 1000
        if k == 1:
            nxt = u % 200000
        elif k == 2:
            nxt = top - 1 - u % 200000
        elif k == 3 or "nxt" not in locals():
            nxt = u % top
        return max(1, nxt % top * pow(65539, -1, top) % top)

    return fn


PROBG_CUM = cumulated("PROBG", "IGSEED", 2, 1)
PROBL_CUM = cumulated("PROBL", "ILSEED", 6, 0)
GST = D(
    IGSEED=custom("IGSEED", "i32[NUNITS+1] 1..2147483647", stream("IGSEED")), PROBG=custom("PROBG", "f[NUNITS,2] 0..1", PROBG_CUM), RATING="f[NUNITS] 0..9", DERATE="f[NUNITS] 0..1",
    PLNDST="i[NUNITS] 0..1")
LST = D(
    ILSEED=custom("ILSEED", "i32[NLINES+1] 1..2147483647", stream("ILSEED")), PROBL=custom("PROBL", "f[6,NLINES] 0..1", PROBL_CUM))
ob("P16", "gstate", MC + "gstate:gstate", KS + "gstate", GST)
ob("P17", "lstate", MC + "lstate:lstate", KS + "lstate", LST)
ob("P18", "unit-streams", MC + "gstate:gstate", KS + "gstate", GST, observe=["IGSEED"], effects=False, errors=False)
ob("P18", "line-streams", MC + "lstate:lstate", KS + "lstate", LST, observe=["ILSEED"], effects=False, errors=False)
for _n, _d, _s in (("gstate", GST, "IGSEED"), ("lstate", LST, "ILSEED")):
    ob("P18", "own-" + _n, MC + _n + ":" + _n, KS + _n, dict(_d, **{"other:" + _s: custom("other:" + _s, "i32[9] 1..2147483647", stream("other:" + _s))}),
       observe=["return"], effects=False, errors=False, own=_s)
ob("P18", "seeder", MC + "seeder:seeder", KS + "seeder", D(
    JSEED="n 1..2147483647", NUNITS="=NUNITS", NLINES="=NLINES"))
ob("P19", "sumcap", MC + "sumcap:sumcap", KS + "sumcap", D(
    AVAIL="f[NUNITS] 0..9", CAPOWN="f[NOAREA,NUNITS] 0..1", CAPCON="n[NUNITS] 0..NOAREA-1"))
ob("P03", "findld", MC + "findld:findld", KS + "findld", D(
    NFACT="n 0..NFCST-1", JHOUR="n 0..NH-1", HRLOAD="f[NOAREA,NH] 0..9", FCTERR="f[NOAREA,NFCST] 0..2"))
ob("P20", "findtn", MC + "findtn:findtn", KS + "findtn", D(
    JENT=JENT, INTCH="f[NCON,365] 0..9", JDAY="n 0..364"))
ob("P20", "xporta", DP + "xporta:xporta", KS + "xporta", D(
    JENT=JENT, INTCH="f[NCON,365] -3..9", HRLOAD="f[NOAREA,8760] 0..9"), samples=20)
ob("P20", "xports", DP + "xports:xports", KS + "xports", D(
    JENT=JENT, INTCH="f[NCON,365] -3..9", HRLOAD="f[NOAREA,8760] 0..9"), samples=20)
ob("P21", "dpeak", DP + "dpeak:dpeak", KS + "dpeak", D(HRLOAD="f[NOAREA,24*ND] 0..3", hour_within_day="=24"))
ob("P21", "plhr", DP + "plhr:plhr", KS + "plhr", D(HRLOAD="f[NOAREA,24*ND] 0..3"))
ob("P21", "wpeakf", DP + "wpeakf:wpeakf", KS + "wpeakf", D(DYLOAD="f[NOAREA,365] 0..30"), samples=20)
ob("P22", "resca", DP + "resca:resca", KS + "resca", D(
    SUSTAT="f[NOAREA+1,6] 0..9", MAXDAY="n[NOAREA] 0..364", QTR="f[3] 0..8760", CAPOWN="f[NOAREA,NUNITS] 0..1",
    RATES="f[NUNITS,4] 0..9", JENT=JENT, INTCH="f[NCON,365] -3..9"))
ob("P26", "admitb", MC + "admitb:admitb", KS + "admitb", D(LP=bus_pairs(), BLP="f[NLINES,3] -3..0"),
   sizes={"NOAREA": (2, 3)})
ob("P26", "admitr", MC + "admitr:admitr", KS + "admitr", D(
    BB="f[NOAREA,NOAREA] -3..3", BN="n[NOAREA,6] 0..NOAREA-1", NR="n 0..NOAREA-1"))
ob("P28", "theta", MC + "theta:theta", KS + "theta", D(Z="f[NN,NN] -3..3", INJ="f[NN] -3..3"))
ob("P28", "thetac", MC + "thetac:thetac", KS + "thetac", D(THET="f[NN] -3..3", LT=perm("LT", "NN")))
ob("P28", "flo", MC + "flo:flo", KS + "flo", D(LP=bus_pairs(), BLP="f[NLINES,3] -3..0", THET="f[NOAREA] -3..3"))
ob("P29", "assign", MC + "assign:assign", KS + "assign", D(
    INJ="f[NN+1] -3..3", LOD="f[NN] 0..4", LT=perm("LT", "NN"), NN="=NN", NLS="n 0..1"))
ob("P27", "admitm", MC + "admitm:admitm", KS + "admitm", D(
    BB="f[NN,NN] -3..3", NII="n 0..NN-1", NJJ="n 0..NN-1", BIJ="f -3..3"), assume=lambda v: v.name_value("NII") != v.name_value("NJJ"))
ob("P27", "admref", MC + "admref:admref", KS + "admref", D(BB="f[NN,NN] -3..3", NII="n 0..NN-1", BIJ="f -3..3"))
ob("P27", "ximpa", MC + "ximpa:ximpa", KS + "ximpa", D(ZB="f[NN,NN] -3..3", ZIJ="f -3..3", NI="n 0..NN-1", NJ="n 0..NN-1"))
ob("P27", "ximpar", MC + "ximpar:ximpar", KS + "ximpar", D(ZB="f[NN,NN] -3..3", ZIJ="f -3..3", NI="n 0..NN-1"))
ob("P26", "tm1", MC + "tm1:tm1", KS + "tm1", D(
    BN="n[NOAREA,6] 0..NOAREA-1", LP=bus_pairs(), BLP="f[NLINES,3] -3..0", NR="n 0..NOAREA-1"), sizes={"NOAREA": (2, 3)})
ob("P32", "net", MC + "net:net", KS + "net", D(
    B="f[MC] -3..3", B1="f[MC] -3..3", RES="f[NV,3] 0..5", IBAS=inj("IBAS", "MC", "NV"), BS="f[MC] 0..5", M="=MC", N="=NV"),
   sizes={"MC": (1, 3), "NV": (3, 6)})

def but(op, **shown):
    """the same opaque calls, comparing only these arguments"""
    from vg.compare import ALL_BUT

    return {n: dict(sig, ignore=ALL_BUT(shown[n])) if n in shown else sig for n, sig in op.items()}


# ------------------------------------------------------------------ calendar
KC = "calendar:"
CELLS = [8, 20, 0, 28, 12, 24, 4]  # scrambled places of the pending events
FREE = 16


def calendar(k):
    """a calendar with k pending events in arbitrary places, arbitrary times and kinds"""

    def fn(ip, st):
        from vg import terms as T
        from vg.values import K

        links = {}
        for i in range(k):
            links[CELLS[i]] = CELLS[i + 1] if i + 1 < k else -1
        links[FREE] = 36
        b = T.sel(T.arr("EVNTS", "f"), K[0])
        for c, v in sorted(links.items()):
            b = T.ite(T.eq(K[0], T.C(c)), T.C(v), b)
        return ip.new(st, (T.C(100),), "f", b, "EVNTS")

    d = custom("EVNTS", "=build", fn)
    d.alt = custom("EVNTS", "f[100] 0..6", evtimes)
    return d


def evtimes(val, idx, u):
    """times in calendar order with ties, for the sampled interpretation"""
    from vg.evalt import H

    c, k = idx[0] // 4 * 4, idx[0] % 4
    if k == 1 and c in CELLS:
        return sum(H(val.seed, "ev", i) % 3 for i in range(CELLS.index(c) + 1))
    return H(val.seed, "ev", idx[0]) % 7


for _k in range(8):
    ob("P12", "filem%d" % _k, MC + "filem:filem", KC + "filem", D(
        MFA="=%d" % FREE, ATRIB="f[2] 0..9", NUMINQ="=%d" % _k, IPOINT="=%d" % (CELLS[0] if _k else -1), EVNTS=calendar(_k)),
       while_gate=9)
ob("P12", "remove", MC + "remove:remove", KC + "remove", D(
    NUMINQ="n 1..9", ATRIB="f[2] 0..6", EVNTS="f[100] 0..90", IPOINT="n 0..90"))
ob("P12", "initfl", MC + "initfl:initfl", KC + "initfl", D())
ob("P12", "initl", MC + "initl:initl", KC + "initl", D(JSTEP="n 1..24", EVNTS="f[100] 0..90", QTR="f[3] 1..8760"))

FILEM = {"filem": dict(mutates=("EVNTS",), returns=(("NUMINQ", "i"), ("MFA", "i"), ("IPOINT", "i")))}
ob("P15", "week", MC + "week:week", KC + "week", D(
    CLOCK="f 0..9000", ATRIB="f[2] 0..6", MFA="n 0..96", NUMINQ="n 0..9", IPOINT="n 0..96", EVNTS="f[100] 0..90",
    PLNDST="f[NUNITS] 0..1", JHOUR="i -1..8759", JPLOUT=custom("JPLOUT", "n[52,NUNITS+1] 0..NUNITS-1", None)), opaque=FILEM)
ob("P13", "week-event", MC + "week:week", KC + "week", D(
    CLOCK="f 0..9000", ATRIB="f[2] 0..6", MFA="n 0..96", NUMINQ="n 0..9", IPOINT="n 0..96", EVNTS="f[100] 0..90",
    PLNDST="f[NUNITS] 0..1", JHOUR="i -1..8759", JPLOUT=custom("JPLOUT", "n[52,NUNITS+1] 0..NUNITS-1", None)), opaque=FILEM,
   observe=["return", "ATRIB", "EVNTS"], effects=False, errors=False)
ob("P13", "quartr", MC + "quartr:quartr", KC + "quartr", D(
    IQ="n 0..3", RATES="f[NUNITS,4] 0..9", CLOCK="f 0..9000", ATRIB="f[2] 0..6", NHRSYR="=8760", MFA="n 0..96", NUMINQ="n 0..9",
    IPOINT="n 0..96", EVNTS="f[100] 0..90"), opaque=FILEM)

# ------------------------------------------------------------------ hourly event
def adim(p, axis=0):
    return lambda env, ip, st: (env[p].dims[axis],)


STATS = dict(
    LOLGHA="f[NOAREA,NFCST] 0..5", LOLGHP="f[NFCST] 0..5", LOLTHA="f[NOAREA,NFCST] 0..5", LOLTHP="f[NFCST] 0..5",
    MGNGHA="f[NOAREA,NFCST] 0..5", MGNGHP="f[NFCST] 0..5", MGNTHA="f[NOAREA,NFCST] 0..5", MGNTHP="f[NFCST] 0..5",
    LOLGPA="f[NOAREA,NFCST] 0..5", LOLGPP="f[NFCST] 0..5", LOLTPA="f[NOAREA,NFCST] 0..5", LOLTPP="f[NFCST] 0..5",
    MGNGPA="f[NOAREA,NFCST] 0..5", MGNGPP="f[NFCST] 0..5", MGNTPA="f[NOAREA,NFCST] 0..5", MGNTPP="f[NFCST] 0..5")
HOUR = dict(
    ATRIB="f[2] 0..6", CLOCK="f 1..20000", MFA="n 0..96", NUMINQ="n 0..9", IPOINT="n 0..96", EVNTS="f[100] 0..90",
    MXPLHR="n[365] 0..8759", PROBG="f[NUNITS,2] 0..1", RATING="f[NUNITS] 0..9", DERATE="f[NUNITS] 0..1", PLNDST="i[NUNITS] 0..1",
    CAPOWN="f[NOAREA,NUNITS] 0..1", CAPCON="n[NUNITS] 0..NOAREA-1", PROBL="f[6,NLINES] 0..1", JENT=JENT, INTCH="f[NCON,365] 0..9",
    MXCRIT="=0", JCRIT="n[9] 0..9", NFCST="=NFCST", HRLOAD="f[NOAREA,8760] 0..9", FCTERR="f[NOAREA,NFCST] 0..2", LSFLG="f[NOAREA] 0..3",
    LINENO="i[NOAREA,NOAREA] -1..NLINES-1", LP=bus_pairs(), LT=perm("LT", "NOAREA"), BB="f[NOAREA,NOAREA] -3..3",
    ZB="f[NOAREA,NOAREA] -3..3", BLP0="f[NLINES] -3..3", BLPA="f[NLINES,18] -3..3", IOI="n 0..1", BN="f[NOAREA,5] -3..9",
    NR="n 0..NOAREA-1", NLS="n 0..1", IGSEED="i32[NUNITS+1] 1..2147483647", ILSEED="i32[NLINES+1] 1..2147483647", **STATS)
def jstep(val, idx, u):
    return 24 if u % 2 else 1


def jfreq(val, idx, u):
    return 1


HR_OPAQUE = dict(
    FILEM,
    gstate=dict(mutates=("IGSEED",), returns=(("PCTAVL", "f", adim("PROBG")), ("AVAIL", "f", adim("PROBG")))),
    sumcap=dict(returns=(("CAPAVL", "f", lambda e, ip, st: e["CAPOWN"].dims), ("SYSOWN", "f", adim("CAPOWN")),
                         ("SYSCON", "f", adim("CAPOWN")), ("TRNSFJ", "f", adim("CAPOWN")))),
    lstate=dict(mutates=("ILSEED",), returns=(("LNSTAT", "i", adim("PROBL", 1)),), single=True),
    findtn=dict(returns=(("TRNSFR", "f", adim("JENT")),), single=True),
    transm=dict(mutates=("BN", "BLP0", "BB", "LT", "ZB"), returns=(("JFLAG", "i"), ("FLOW", "f", adim("LP")), ("SADJ", "f", adim("BN")))),
    hrstat=dict(mutates=("LSFLG", "LOLGHA", "LOLGHP", "LOLTHA", "LOLTHP", "MGNGHA", "MGNGHP", "MGNTHA", "MGNTHP")),
    pkstat=dict(mutates=("LOLGPA", "LOLGPP", "LOLTPA", "LOLTPP", "MGNGPA", "MGNGPP", "MGNTPA", "MGNTPP")))
HR_UF = {"gstate.AVAIL": "f[] 0..9", "sumcap.SYSCON": "f[] 0..12", "transm.JFLAG": "n 0..1", "transm.SADJ": "f[] -3..3",
         "lstate.LNSTAT": "n[] 1..6"}
HRCASES = [dict(NFCST=1, NOAREA=2, NUNITS=2, NLINES=2, NCON=1), dict(NFCST=3, NOAREA=3, NUNITS=2, NLINES=3, NCON=2),
           dict(NFCST=5, NOAREA=2, NUNITS=1, NLINES=1, NCON=1)]
ob("P03", "hour", MC + "hour:hour", KC + "hour", D(JSTEP=custom("JSTEP", "n 1..24", jstep), JFREQ="=1", **HOUR),
   opaque=HR_OPAQUE, uf=HR_UF, cases=HRCASES)
ob("P03", "hour-jfreq", MC + "hour:hour", KC + "hour", D(JSTEP="=1", JFREQ="n 2..24", **HOUR),
   opaque=HR_OPAQUE, uf=HR_UF, observe=(), effects=False, cases=HRCASES[:1])

# ------------------------------------------------------------------ network analysis
KN = "network:"


def area_table(val, idx, u):
    """area table: the two flow limits are equal before and after the analysis"""
    from vg.evalt import H

    i, c = idx
    return i if c == 0 else H(val.seed, "BN", i, min(c, 3)) % 10


TRANSM = dict(
    CLOCK="f 1..20000", JHOUR="n 0..8759", IOI="n 0..1", BN=custom("BN", "f[NOAREA,5] 0..9", area_table), BLPA="f[NLINES,18] -3..3", BLP0="f[NLINES] -3..3",
    BB="f[NOAREA,NOAREA] -3..3", LT=perm("LT", "NOAREA"), ZB="f[NOAREA,NOAREA] -3..3", LP=bus_pairs(), NR="n 0..NOAREA-1",
    STMULT="f[NLINES,2] 0..1", LNSTAT="n[NLINES] 1..6", NLS="n 0..1", TRNSFR="f[NOAREA] -3..3", TRNSFJ="f[NOAREA] -3..3",
    SYSCON="f[NOAREA] 0..9", CAPREQ="f[NOAREA] 0..9", PLNDST="i[NUNITS] 0..1", PCTAVL="f[NUNITS] 0..1")
TM_OPAQUE = dict(
    tm1=dict(returns=(("BLP0", "f", adim("LP")), ("BB", "f", lambda e, ip, st: e["BN"].dims[:1] * 2), ("LT", "i", adim("BN")),
                      ("ZB", "f", lambda e, ip, st: e["BN"].dims[:1] * 2))),
    tm2=dict(mutates=(("BN", (1, 2)),), ignore=("BNS",), returns=(("FLOW", "f", adim("LP")), ("INDIC", "i"))))


def help_received(val, idx, u):
    """loads after the analysis; often exactly the capacity above the requirement"""
    i, c = idx
    if c == 1 and u % 3:
        k = val.elem("SYSCON", (i,)) - val.elem("CAPREQ", (i,))
        return k if u % 3 == 1 or val.seed % 2 else k - 1
    return val.gen("f", -3, 6, u // 3)


ob("P31", "transm", MC + "transm:transm", KN + "transm", D(IFLAG="n 0..1", JFLAG="=0", **TRANSM), opaque=TM_OPAQUE,
   uf={"tm1.LT": "n[] 0..NOAREA-1", "tm1.BB": "f[] -3..3", "tm1.ZB": "f[] -3..3", "tm1.BLP0": "f[] -3..3", "tm2.FLOW": "f[] -3..3",
       "tm2.BN": custom("tm2.BN", "f[] -3..6", help_received)}, sizes={"NOAREA": (2, 3)})


def ref_perm(val, idx, u):
    """areas in matrix order; the reference area last"""
    from vg.evalt import H

    n = val.size("NOAREA")
    nr = val.name_value("NR")
    order = sorted((a for a in range(n) if a != nr), key=lambda a: H(val.seed, "LT", a)) + [nr]
    return order[idx[0]] if 0 <= idx[0] < n else 0


def line_state(val, idx, u):
    """present state of the lines: many as undisturbed, some out of service"""
    from vg.evalt import H

    i, c = idx
    if c == 0:
        k = H(val.seed, "BLP", i) % 3
        return val.elem("BLP0", (i,)) if k == 0 else 0 if k == 1 else -1 - u % 3
    return u % 6


def area_state(val, idx, u):
    """area table: number, load, injection, import and export limit (not negative)"""
    i, c = idx
    return i if c == 0 else u % 5 if c == 1 else u % 9 - 4 if c == 2 else u % 4


TM2 = dict(
    BN=custom("BN", "f[NOAREA,5] -6..6", area_state), LP=bus_pairs(), BLP0="f[NLINES] -3..-1", BLP=custom("BLP", "f[NLINES,3] -3..3", line_state), BB="f[NOAREA,NOAREA] -3..3",
    ZB="f[NOAREA,NOAREA] -3..3", LT=custom("LT", "n[NOAREA] 0..NOAREA-1", ref_perm), NR="n 0..NOAREA-1", NLS="n 0..1",
    BNS="f[NOAREA,6] 0..9", LCLOCK="f 0..9", JHOUR="n 0..8759", IOI="=0", JFLAG="n 0..1", PLNDST="i[NUNITS] 0..1", PCTAVL="f[NUNITS] 0..1")


def shp(s):
    def dims(env, ip, st):
        from vg.domain import dim_term

        return tuple(dim_term(x) for x in s.split(","))

    return dims


TAB_RET = (("M", "i"), ("N", "i"), ("N1", "i"), ("A", "f", shp("200,250")), ("XOB", "f", shp("250")), ("XOBI", "f", shp("2,250")),
           ("IBAS", "i", shp("200")), ("BS", "f", shp("200")), ("B", "f", shp("200")), ("B1", "f", shp("200")), ("TAB", "f", shp("200,250")))
T2_OPAQUE = dict(
    connls=dict(returns=TAB_RET), conls=dict(returns=TAB_RET),
    linp=dict(mutates=("XOB", "IBAS", "BS"), returns=(("N", "i"), ("TAB", "f", shp("200,200")))),
    net=dict(mutates=("RES",)),
    assign=dict(returns=(("INJ1", "f", adim("INJ")), ("LODC", "f", adim("LOD")))))
T2CASES = [dict(NOAREA=2, NLINES=1, NUNITS=1), dict(NOAREA=3, NLINES=2, NUNITS=1), dict(NOAREA=4, NLINES=2, NUNITS=1)]
ob("P30", "tm2", MC + "tm2:tm2", KN + "tm2", D(**TM2), opaque=T2_OPAQUE, sizes={"NOAREA": (2, 3)}, cases=T2CASES, effects=False, errors=False,
   observe=["return", "BN"], samples=60)

ob("P30", "tm2-limits", MC + "tm2:tm2", KN + "tm2", D(**TM2), opaque=dict(T2_OPAQUE, flo=dict(returns=(("SFLOW", "f", adim("THET")), ("FLOW", "f", adim("LP"))))),
   uf={"flo.FLOW": "i[] -6..6", "flo.SFLOW": "i[] -3..3"}, sizes={"NOAREA": (2, 3)}, cases=T2CASES, effects=False, errors=False,
   observe=["return", "BN"], samples=90)


def table_limits(val, idx, u):
    i, c = idx
    return i if c == 0 else u % 9 - 4 if c == 2 else u % 5


CON = dict(
    BC="f[NOAREA,NOAREA] -3..3", INJ="f[NOAREA] -4..4", NX="=NOAREA-1", NR="n 0..NOAREA-1", LT=custom("LT", "n[NOAREA] 0..NOAREA-1", ref_perm),
    BLP=custom("BLP", "f[NLINES,3] -3..3", lambda v, i, u: -(u % 4) if i[1] == 0 else u % 6), LP=bus_pairs(),
    BN=custom("BN", "f[NOAREA,5] -6..6", table_limits), LOD="f[NOAREA] 0..4")


def injections(val, idx, u):
    """by area what INJ lists in matrix order"""
    n = val.size("NOAREA")
    for i in range(n):
        if val.elem("LT", (i,)) == idx[0]:
            return val.elem("INJ", (i,))
    return 0


CONCASES = [dict(NOAREA=2, NLINES=1), dict(NOAREA=3, NLINES=2), dict(NOAREA=3, NLINES=3)]
TABW = {"return[3]": ("5*NOAREA+2*NLINES", "9*NOAREA+2*NLINES"), "return[10]": ("5*NOAREA+2*NLINES", "9*NOAREA+2*NLINES"),
        "return[4]": ("9*NOAREA+2*NLINES",), "return[5]": ("2", "9*NOAREA+2*NLINES"), "return[7]": ("5*NOAREA+2*NLINES",),
        "return[8]": ("5*NOAREA+2*NLINES",)}
ob("P32", "connls", MC + "connls:connls", KN + "connls", D(INJB=custom("INJB", "f[NOAREA] -4..4", injections), NLS="=1", **CON),
   sizes={"NOAREA": (2, 3), "NLINES": (1, 3)}, cases=CONCASES, window=TABW, samples=40)
ob("P32", "conls", MC + "conls:conls", KN + "conls", D(NLS="=0", **CON),
   sizes={"NOAREA": (2, 3), "NLINES": (1, 3)}, cases=CONCASES, window=TABW, samples=40)


def available(val, idx, u):
    """whole, in part or not at all"""
    return (1, 0, Fraction(u % 7 + 1, 8))[u // 7 % 3]


ob("P37", "trace-input", MC + "transm:transm", KN + "transm", D(IFLAG="n 0..1", JFLAG="=0", **TRANSM), opaque=but(
    dict(TM_OPAQUE, tm2=dict(TM_OPAQUE["tm2"], effect=True, columns={"BNS": (0, 1, 4, 5)})),
    tm2=("BNS", "LCLOCK", "JHOUR", "IOI", "JFLAG", "PLNDST", "PCTAVL")), keep=("tm2",), observe=[], errors=False,
   uf={"tm1.LT": "n[] 0..NOAREA-1", "tm1.BB": "f[] -3..3", "tm1.ZB": "f[] -3..3", "tm1.BLP0": "f[] -3..3", "tm2.FLOW": "f[] -3..3",
       "tm2.BN": custom("tm2.BN", "f[] -3..6", help_received)}, sizes={"NOAREA": (2, 3)})
TRACE = dict(TM2, LCLOCK="n 0..9", IOI="n 0..2", PLNDST="i[NUNITS] 0..1", PCTAVL=custom("PCTAVL", "f[NUNITS] 0..1", available))
TR_OPAQUE = dict(T2_OPAQUE, ximpa=dict(returns=(("Z", "f", lambda e, ip, st: e["ZB"].dims),), single=True), ximpar=dict(returns=(("Z", "f", lambda e, ip, st: e["ZB"].dims),), single=True), flo=dict(returns=(("SFLOW", "f", adim("THET")), ("FLOW", "f", adim("LP")))))
for _case, _nls in (("trace", "=1"), ("trace-sharing", "=0")):
    ob("P37", _case, MC + "tm2:tm2", KN + "tm2_trace", D(**dict(TRACE, NLS=_nls, JFLAG="n 0..1" if _nls == "=1" else "=1")), opaque=TR_OPAQUE,
       uf={"flo.FLOW": "i[] -6..6", "flo.SFLOW": "i[] -3..3"}, sizes={"NOAREA": (2, 3), "NUNITS": (1, 4)}, errors=False,
       cases=[dict(NOAREA=2, NLINES=1, NUNITS=2), dict(NOAREA=3, NLINES=2, NUNITS=4)], observe=["return", "BN"], keep=("write",), samples=60)
T2_MAT = but(dict(T2_OPAQUE, connls=dict(effect=True, returns=TAB_RET), conls=dict(effect=True, returns=TAB_RET),
                  theta=dict(effect=True, returns=(("THET", "f", adim("INJ")),), single=True)), connls=("BC",), conls=("BC",), theta=("Z",))
ob("P27", "tm2-matrices", MC + "tm2:tm2", KN + "tm2", D(**TM2), opaque=T2_MAT, sizes={"NOAREA": (2, 3)}, cases=T2CASES, errors=False,
   observe=["BB", "ZB"], keep=("theta", "connls", "conls"), samples=60)
ob("P34", "tm2-inputs", MC + "tm2:tm2", KN + "tm2", D(**TM2), opaque=T2_OPAQUE, sizes={"NOAREA": (2, 3)}, cases=T2CASES, errors=False, effects=False,
   observe=["LP", "BLP", "BLP0", "LT", "BNS", "PLNDST", "PCTAVL"], samples=60)

# ------------------------------------------------------------------ end of a year, report
KA = "annual:"


def upto_nfcst(name):
    """statistics per forecast level; the places of unused levels stay zero"""

    def fn(val, idx, u):
        from vg.evalt import H

        mode = H(val.seed, "sparse", name) % 4
        if idx[-1] >= val.size("NFCST") or mode == 0 or mode == 1 and u % 5:
            return 0
        return u // 5 % 5

    return fn


def years(val, idx, u):
    return 8760 * (1 + u % 4)


ANNUAL = dict(
    ATRIB="f[2] 0..6", CLOCK="=8760*NYR", CVTEST="f 0..1", DPLOLE="f[NOAREA,22] 0..9", EUES="f[NOAREA,22] 0..9", EVNTS="f[100] 0..90",
    FINISH=custom("FINISH", "f 0..9", years), HLOLE="f[NOAREA,22] 0..9", IPOINT="n 0..96", MFA="n 0..96", NUMINQ="n 0..9", RFLAG="=0",
    LSFLG="f[NOAREA] 0..3", NAMA="s[NOAREA] 0..9", SSQ="f 0..9", SUSTAT="f[NOAREA+1,6] 0..9", XLAST="f 0..9",
    BB="f[NOAREA,NOAREA] -3..3", LT=perm("LT", "NOAREA"), ZB="f[NOAREA,NOAREA] -3..3", INTV="n 1..4", INTVT="n 1..4", IOJ="n 0..1",
    KVLOC="n 0..NOAREA-1", KVSTAT="n 1..2", KVTYPE="n 1..2", KVWHEN="n 1..2", KWHERE="n 1..2", LSTEP="n 1..4", NFCST="=NFCST",
    NORR="n 0..NFCST-1", INDX="n 0..1", ITAB="n 0..9", XNEWA="f[NOAREA,3] 0..9", XNEWP="f[3] 0..9")
YEARLY = [k + c + w + x for k in ("LOL", "MGN") for c in "GT" for w in "HP" for x in "AP"]
SUMS = [k + c + w + x for k in ("SOL", "SGN") for c in "GTS" for w in "HP" for x in "AP"]
WSUMS = [k + c + w + x for k in ("SWL", "SWN") for c in "GTS" for w in "HP" for x in "AP"]
for _n in YEARLY + SUMS:
    ANNUAL[_n] = custom(_n, "n[NOAREA,5] 0..9" if _n[-1] == "A" else "n[5] 0..9", upto_nfcst(_n))
for _n in WSUMS:
    ANNUAL[_n] = "f[NOAREA] 0..9" if _n[-1] == "A" else "f[] 0..9"
YR_OPAQUE = dict(
    FILEM,
    cvchk=dict(returns=(("RFLAG", "i"), ("SSQ", "f"), ("XLAST", "f"))),
    intm=dict(effect=True, ignore=("IGSEED", "ILSEED")),
    report=dict(effect=True, mutates=("SUSTAT",), returns=(("ITAB", "i"),), single=True))
YR = dict(opaque=YR_OPAQUE, sizes={"NFCST": [1, 5], "NYR": (1, 4), "NOAREA": (1, 3)}, uf={"cvchk.RFLAG": "n 0..1"},
          labels=("GC", "TC", "GT", "AV", "HLOLE", "XLOL", "EUE", "LOLE"), samples=240)
YEAR = MC + "year:year"
RUNNING = SUMS + WSUMS + ["XNEWA", "XNEWP"]
FIXED_IN = ["NAMA", "LSFLG", "BB", "LT", "ZB"]
ob("P04", "year-sums", YEAR, KA + "year", D(**ANNUAL), observe=RUNNING, effects=False, **YR)
ob("P05", "year-reset", YEAR, KA + "year", D(**ANNUAL), observe=YEARLY, effects=False, **YR)
ob("P06", "year-statistic", YEAR, KA + "year", D(**ANNUAL), observe=["return[3]", "return[4]", "return[5]"], skip_ret=(0, 1, 2, 6, 7),
   effects=False, errors=False, **YR)
ob("P08", "year-classes", YEAR, KA + "year", D(**ANNUAL), observe=["HLOLE", "DPLOLE", "EUES"], effects=False, errors=False, **YR)
ob("P11", "year-table", YEAR, KA + "year", D(**ANNUAL), observe=[], keep=("write",), errors=False, **YR)
ob("P13", "year-event", YEAR, KA + "year", D(**ANNUAL), observe=["return[0]", "ATRIB", "EVNTS"], skip_ret=(3, 4, 5, 6, 7), effects=False,
   errors=False, **YR)
ob("P25", "year-report", YEAR, KA + "year", D(**ANNUAL), observe=["return[7]", "SUSTAT"], skip_ret=(0, 1, 2, 3, 4, 5, 6), keep=("report",),
   errors=False, **YR)
ob("P33", "year-snapshot", YEAR, KA + "year", D(**ANNUAL), observe=["return[6]"], skip_ret=(0, 1, 2, 3, 4, 5, 7), keep=("intm",),
   errors=False, **YR)
ob("P34", "year-inputs", YEAR, KA + "year", D(**ANNUAL), observe=FIXED_IN, effects=False, errors=False, **YR)

REPORT = {k: v for k, v in ANNUAL.items() if k in SUMS + WSUMS + ["XNEWA", "XNEWP", "INDX", "ITAB", "SUSTAT", "DPLOLE", "EUES", "HLOLE", "LSTEP",
                                                              "NAMA", "NFCST"]}
REPORT["IYEAR"] = "n 1..4"


def before_distributions(val, toks):
    return toks[: len(toks) - val.size("NOAREA") * (22 * 8 + 2)]


def distributions(val, toks):
    return toks[len(toks) - val.size("NOAREA") * (22 * 8 + 2):]


REP = dict(sizes={"NFCST": [1, 5], "NOAREA": (1, 3)}, labels=("GC", "TC", "GT", "AV", "HLOLE", "XLOL", "EUE", "LOLE"), samples=100)
ob("P09", "report-rows", MC + "report:report", KA + "final", D(**REPORT), observe=["return", "SUSTAT"], keep=("write",),
   part=before_distributions, **REP)
ob("P10", "report-distributions", MC + "report:report", KA + "final", D(**REPORT), observe=[], keep=("write",), part=distributions,
   errors=False, **REP)
ob("P34", "report-inputs", MC + "report:report", KA + "final", D(**REPORT), observe=SUMS + WSUMS + ["HLOLE", "DPLOLE", "EUES", "NAMA", "XNEWA", "XNEWP"],
   effects=False, errors=False, **REP)

# ------------------------------------------------------------------ set-up, main loop, dispatch
KP = "plumbing:"
HOUR_OUT = ("ATRIB", "EVNTS", "LSFLG", "BB", "ZB", "LT", "BLP0", "BN", "IGSEED", "ILSEED") + tuple(STATS)
YEAR_OUT = ("ATRIB", "EVNTS", "SUSTAT", "HLOLE", "DPLOLE", "EUES", "XNEWA", "XNEWP") + tuple(YEARLY + SUMS + WSUMS)
CALR = (("NUMINQ", "i"), ("MFA", "i"), ("IPOINT", "i"))
HANDLERS = dict(
    hour=dict(effect=True, mutates=HOUR_OUT, returns=CALR + (("JHOURT", "i"),)),
    week=dict(effect=True, mutates=("ATRIB", "EVNTS", "PLNDST"), returns=CALR[2:] + CALR[1:2] + CALR[:1]),
    quartr=dict(effect=True, mutates=("ATRIB", "EVNTS"), returns=(("IQ", "i"),) + CALR[2:] + CALR[1:2] + CALR[:1] + (("r", "f", adim("RATES")),)),
    year=dict(effect=True, mutates=YEAR_OUT, returns=CALR[2:] + CALR[1:2] + CALR[:1] + (
        ("SSQ", "f"), ("XLAST", "f"), ("RFLAG", "i"), ("INTVT", "i"), ("ITAB", "i"))))
REPORT_OP = dict(effect=True, mutates=("SUSTAT",), returns=(("ITAB", "i"),), single=True)
REMOVE_OP = dict(mutates=("ATRIB", "EVNTS"), returns=(("MFA", "i"), ("NUMINQ", "i"), ("IPOINT", "i")))
STATE = dict(ANNUAL)
STATE.update(HOUR)
STATE.update(
    CLOCK="f 0..9", JSTEP="n 1..24", JFREQ="n 1..24", NHRSYR="=8760", RATES="f[NUNITS,4] 0..9", IQ="n 0..3", JHOUR="i -1..8759",
    JPLOUT="n[52,NUNITS+1] 0..NUNITS-1", EVNTS="f[100] 0..9", FINISH="f 0..9", IPOINT="i -1..4", RFLAG="n 0..1", NFCST="n 1..5",
    NUMBER="n 1..4", MXCRIT="n 0..9")
for _n in YEARLY + SUMS:
    STATE[_n] = "f[NOAREA,5] 0..9" if _n[-1] == "A" else "f[5] 0..9"
EV = {k: v for k, v in STATE.items()}
CT = {k: v for k, v in STATE.items() if k != "NUMBER"}
CT["EVNTS"] = custom("EVNTS", "f[100] 0..9", lambda val, idx, u: val.name_value("CLOCK") if u % 3 == 0 else
                     val.name_value("FINISH") + 1 if u % 3 == 1 and u // 3 % 4 == 0 else val.gen("f", 0, 9, u // 12))
LOOP_UF = {"events.RFLAG": "n 0..1", "events.IPOINT": "i -1..4", "remove.IPOINT": "i -1..4", "events.EVNTS": "f[] 3..12", "remove.EVNTS": "f[] 3..12",
           "remove.ATRIB": "f[] 0..4", "hour.IPOINT": "i -1..4", "week.IPOINT": "i -1..4", "quartr.IPOINT": "i -1..4", "year.IPOINT": "i -1..4",
           "hour.EVNTS": "f[] 3..12", "week.EVNTS": "f[] 3..12", "quartr.EVNTS": "f[] 3..12", "year.EVNTS": "f[] 3..12", "year.RFLAG": "n 0..1"}


CAL_ARGS = ("CLOCK", "ATRIB", "MFA", "NUMINQ", "IPOINT", "EVNTS")
ob("P24", "events", MC + "events:events", KP + "events", D(**EV), opaque=HANDLERS, uf=LOOP_UF)
ob("P13", "dispatch", MC + "events:events", KP + "events", D(**EV), uf=LOOP_UF, observe=["RATING", "PLNDST", "ATRIB", "EVNTS", "return"],
   skip_ret=(4, 5, 6, 7), opaque=but(HANDLERS, hour=CAL_ARGS, week=CAL_ARGS + ("JHOUR",), quartr=CAL_ARGS + ("IQ", "RATES", "NHRSYR"), year=CAL_ARGS))
EVENTS_OP = dict(effect=True, mutates=tuple(sorted(set(HOUR_OUT + YEAR_OUT + ("PLNDST", "RATING")))), returns=(
    ("RFLAG", "i"), ("IPOINT", "i"), ("MFA", "i"), ("NUMINQ", "i"), ("SSQ", "f"), ("XLAST", "f"), ("INTVT", "i"), ("ITAB", "i"), ("IQ", "i"),
    ("JHOUR", "i")))
CT_OP = dict(HANDLERS, events=EVENTS_OP, report=REPORT_OP, remove=REMOVE_OP)
CT_KW = dict(uf=LOOP_UF, while_gate=4, observe=(), keep=("events", "report", "hour", "week", "quartr", "year"))
ob("P24", "contrl", MC + "contrl:contrl", KP + "contrl", D(**CT), opaque=CT_OP, **CT_KW)
ob("P25", "contrl-loop", MC + "contrl:contrl", KP + "contrl", D(**CT), opaque=but(
    CT_OP, events=CAL_ARGS + ("NUMBER", "RFLAG", "FINISH"), report=("IYEAR", "ITAB"), hour=CAL_ARGS, week=CAL_ARGS, quartr=CAL_ARGS,
    year=CAL_ARGS + ("RFLAG", "FINISH")), **CT_KW)
DATA = """QTR f[3] NORR n NFCST n NOAREA n PKLOAD f[NA] FU f[NA] MINRAN n[NA] MAXRAN n[NA] INHBT1 n[NA] INHBT2 n[NA] BN f[NA,5] SUSTAT f[NA+1,6]
FCTERR f[NA,NF] CAPCON n[NU] CAPOWN f[NA,NU] NOGEN n[NA] PROBG f[NU,2] DERATE f[NU] JENT i[NA,NA] INTCH f[NC,365] INTCHR f[NC,365] LP n[NL,3]
LINENO i[NA,NA] PROBL f[6,NL] BLPA f[NL,18] MXCRIT n JCRIT n[9] RATES f[NU,4] ID n[NU,8] HRLOAD f[NA,8760] MAXHR n[NA] DYLOAD f[NA,365]
MAXDAY n[NA] WPEAK f[NA,52] MXPLHR n[365] JPLOUT n[52,NU+1] ITAB n NLS n IOI n IOJ n KVLOC n KVSTAT n KVTYPE n KVWHEN n KWHERE n CVTEST f
MAXEUE f JSTEP n JFREQ n FINISH f INTV n INTVT n NR n NAMA s[NA]""".split()


def sized(shape):
    names = [x for x in shape.split(",")]

    def dims(env, ip, st):
        from vg.domain import dim_term

        return tuple(dim_term(x) for x in names)

    return dims


DATA_RET = tuple((n, d[0]) if "[" not in d else (n, d[0], sized(d[d.index("[") + 1:-1])) for n, d in zip(DATA[::2], DATA[1::2]))
NARP_OP = dict(
    dataf1=dict(returns=DATA_RET),
    initfl=dict(returns=(("MFA", "i"), ("IPOINT", "i"), ("EVNTS", "f", sized("100")))),
    seeder=dict(ignore=("JSEED",), returns=(("IGSEED", "i", lambda e, ip, st: (T().add(e["NUNITS"], T().ONE),)), ("ILSEED", "i", lambda e, ip, st: (T().add(e["NLINES"], T().ONE),)))),
    initl=dict(mutates=("EVNTS",), returns=(("ATRIB", "f", sized("2")), ("CLOCK", "f"), ("IPOINT", "i"), ("MFA", "i"), ("NUMINQ", "i"))),
    contrl=dict(effect=True, storage=tuple(n for n in YEARLY + SUMS if n.startswith(("MGN", "SGN"))) + tuple(WSUMS) + (
        "XNEWA", "XNEWP", "EUES", "RATING", "BB", "ZB", "BLP0", "SUSTAT", "BN")))


def T():
    from vg import terms

    return terms


NARP_UF = {"dataf1.JSTEP": custom("JSTEP", "n 1..24", jstep), "dataf1.MAXEUE": "f 0..300"}
ob("P24", "narpMain", MC + "narpMain:narpMain", KP + "narpMain", D(TEST_DIR="s 0..9"), opaque=NARP_OP, uf=NARP_UF, keep=("contrl",))
ob("P08", "classes-width", MC + "narpMain:narpMain", KP + "narpMain", D(TEST_DIR="s 0..9"), opaque=but(NARP_OP, contrl=("LSTEP",)), uf=NARP_UF,
   keep=("contrl",), errors=False)
INTM = {k: STATE[k] for k in """ATRIB CLOCK IPOINT XLAST SSQ MFA NUMINQ ITAB INTVT EVNTS IGSEED ILSEED LT BB ZB SOLTHA SOLGHA SOLSHA SGNTHA SGNGHA
SGNSHA SOLTPA SOLGPA SOLSPA SGNTPA SGNGPA SGNSPA SWLSHA SWLGHA SWLTHA SWNSHA SWNGHA SWNTHA SWLSPA SWLGPA SWLTPA SWNSPA SWNGPA SWNTPA SOLTHP
SOLGHP SOLSHP SGNTHP SGNGHP SGNSHP SOLTPP SOLGPP SOLSPP SGNTPP SGNGPP SGNSPP HLOLE DPLOLE EUES XNEWA XNEWP LSFLG""".split()}
ob("P33", "intm", MC + "intm:intm", KP + "intm", D(WOLSHA="f[NOAREA] 0..9", **INTM), keep=("pickle.dump",), errors=False)

# ------------------------------------------------------------------ clock
ob("P13", "hour-event", MC + "hour:hour", KC + "hour", D(JSTEP=custom("JSTEP", "n 1..24", jstep), JFREQ="=1", **HOUR),
   opaque=HR_OPAQUE, uf=HR_UF, cases=HRCASES[:2], observe=["return", "ATRIB", "EVNTS"], skip_ret=(3,), effects=False, errors=False)
ob("P18", "hour-draws", MC + "hour:hour", KC + "hour", D(JSTEP=custom("JSTEP", "n 1..24", jstep), JFREQ="=1", **HOUR),
   opaque=but(HR_OPAQUE, gstate=("IGSEED",), lstate=("ILSEED",)), uf=HR_UF, cases=HRCASES[:2], observe=["IGSEED", "ILSEED"], effects=False, errors=False)
CLK_HR = dict(HR_OPAQUE, findld=dict(effect=True, returns=(("CAPREQ", "f", adim("HRLOAD")),), single=True))
CLK_HR["findtn"] = dict(HR_OPAQUE["findtn"], effect=True)
CLK_HR = but(CLK_HR, findtn=("JDAY",), findld=("JHOUR", "NFACT"), gstate=(), lstate=(), sumcap=("x",), transm=("JHOUR",), hrstat=(), pkstat=(), filem=())
ob("P14", "hour-clock", MC + "hour:hour", KC + "hour", D(JSTEP=custom("JSTEP", "n 1..24", jstep), JFREQ="=1", **HOUR),
   opaque=CLK_HR, uf=dict(HR_UF, **{"findld.CAPREQ": "f[] 0..12"}), cases=HRCASES[:2], observe=["return[3]"], skip_ret=(0, 1, 2), keep=("findtn", "findld"), errors=False)
ob("P14", "week-clock", MC + "week:week", KC + "week", D(
    CLOCK="f 0..9000", ATRIB="f[2] 0..6", MFA="n 0..96", NUMINQ="n 0..9", IPOINT="n 0..96", EVNTS="f[100] 0..90",
    PLNDST="f[NUNITS] 0..1", JHOUR="i -1..8759", JPLOUT=custom("JPLOUT", "n[52,NUNITS+1] 0..NUNITS-1", None)), opaque=FILEM, observe=["PLNDST"], errors=False)
ob("P14", "year-clock", YEAR, KA + "year", D(**ANNUAL), observe=[], keep=("cvchk", "intm", "report"), errors=False,
   opaque=but(dict(YR_OPAQUE, cvchk=dict(YR_OPAQUE["cvchk"], effect=True)), cvchk=("IYEAR",), intm=("INTVT",), report=("IYEAR",)),
   sizes=YR["sizes"], uf=YR["uf"], labels=YR["labels"], samples=120)

ASSUMPTIONS = {}
NOTES = {}
COMMON_ASSUMPTIONS = [
    "exact arithmetic: floating-point rounding is not modelled (constants are their decimal literals)",
    "inputs are within the declared domains (static/obligations.py): array shapes, index ranges and kinds",
    "numpy and builtin operations have their documented meaning (static/vg/npmodel.py, arrays.py)",
]

# ------------------------------------------------------------------ input decoding
KD = "data:"


def tree(param, leaves):
    """a dictionary parameter: 'ZZLD.RATES' -> declaration of the leaf"""
    doms = {}
    for k, v in leaves.items():
        doms[param + "." + k] = v if isinstance(v, Dom) else Dom(param + "." + k, v)

    def fn(ip, st):
        from vg.domain import make_param
        from vg.values import Ref

        def make(prefix):
            items, done = [], []
            for k in leaves:
                if not k.startswith(prefix):
                    continue
                head = k[len(prefix):].split(".")[0]
                if head in done:
                    continue
                done.append(head)
                if prefix + head in leaves:
                    n = param + "." + prefix + head
                    items.append((head, make_param(ip, st, n, doms[n])))
                else:
                    items.append((head, make(prefix + head + ".")))
            oid = ip.new_oid()
            st.heap[oid] = tuple(items)
            ip.given = tuple(ip.given) + (oid,)
            return Ref("dict", oid)

        return make("")

    out = dict(doms)
    out[param] = Dom(param, "=build", fn)
    return out



def days(nm, n):
    """days of the year, 1-based; mostly near its ends"""
    return Dom(nm, "n[%s] 1..365" % n, lambda val, idx, u: 1 + u // 5 % 9 if u % 5 < 3 else 365 - u // 5 % 3 if u % 5 == 3 else 1 + u // 5 % 365)


DATAX = tree("inputB_dict", {
    "ZZMC.NLS": "n 0..1", "ZZMC.IW1": "n 1..20", "ZZMC.IW2": "n 21..30", "ZZMC.IW3": "n 31..51", "ZZMC.KWHERE": "n 1..2",
    "ZZMC.KVWHEN": "n 1..2", "ZZMC.KVSTAT": "n 1..2", "ZZMC.KVTYPE": "n 1..2", "ZZMC.KVLOC": "n 1..9", "ZZMC.CVTEST": "f 0..1",
    "ZZMC.FINISH": "n 1..9999", "ZZMC.JSTEP": "n 1..24", "ZZMC.JFREQ": "n 1..24", "ZZMC.MAXEUE": "f 0..9999", "ZZMC.IOI": "n 0..1",
    "ZZMC.IOJ": "n 0..1", "ZZMC.INTV": "n 0..99", "ZZMC.IREPM": "n 0..1", "ZZMC.JSEED": "n 0..9999999",
    "ZZLD.SNRI": "n[NOAREA] 1..NOAREA", "ZZLD.NAR": perm("inputB_dict.ZZLD.NAR", "NOAREA"), "ZZLD.RATES": "f[NOAREA,3] 0..4",
    "ZZLD.ID": "n[NOAREA,4] 0..52",
    "ZZUD.SNRI": "n[NUNITS] 1..NUNITS", "ZZUD.NAT": perm("inputB_dict.ZZUD.NAT", "NUNITS"), "ZZUD.NAR": "n[NUNITS] 0..NOAREA-1",
    "ZZUD.ID": "n[NUNITS,5] 0..52", "ZZUD.HRLOAD": "f[7,NUNITS] 0..1",
    "ZZTD.SNRI": "n[NLINES] 1..NLINES", "ZZTD.LineID": perm("inputB_dict.ZZTD.LineID", "NLINES"), "ZZTD.NAR": "n[NLINES] 0..NOAREA-1",
    "ZZTD.NAE": "n[NLINES] 0..NOAREA-1", "ZZTD.ADM": "f[NLINES,6] 0..2", "ZZTD.CAP": "f[NLINES,6] 0..3",
    "ZZTD.CAPR": "f[NLINES,6] 0..3", "ZZTD.PROBT": "f[NLINES,6] 0..1",
    "ZZFC.SNRI": "n[NC] 1..NC", "ZZFC.NAR": "n[NC] 0..NOAREA-1", "ZZFC.NAE": "n[NC] 0..NOAREA-1", "ZZFC.BEG DAY": days("inputB_dict.ZZFC.BEG DAY", "NC"),
    "ZZFC.END DAY": days("inputB_dict.ZZFC.END DAY", "NC"), "ZZFC.MW": "f[NC] -3..3",
    "ZZOD.SNRI": "n[NO] 1..NO", "ZZOD.NAT": "n[NO] 0..NUNITS-1", "ZZOD.PERCENT": "f[NO,NOAREA] 0..100",
})
DSIZES = {"NC": (0, 3), "NO": (0, 2), "NOAREA": (1, 3), "NUNITS": (1, 4), "NLINES": (1, 3)}
DRET = ["QTR", "NORR", "NFCST", "NOAREA", "PKLOAD", "FU", "MINRAN", "MAXRAN", "INHBT1", "INHBT2", "BN", "SUSTAT", "FCTERR", "CAPCON",
        "CAPOWN", "NOGEN", "PROBG", "DERATE", "JENT", "INTCH", "INTCHR", "LP", "LINENO", "PROBL", "BLPA", "MXCRIT", "JCRIT", "ID"]
CONTRACTS = [DRET.index(x) for x in ("JENT", "INTCH", "INTCHR")]
DLEN = 43
ob("P23", "datax", DP + "datax:datax", KD + "datax", DATAX, sizes=DSIZES, observe=["return"], effects=False, skip_ret=CONTRACTS)
ob("P20", "datax-contracts", DP + "datax:datax", KD + "datax", DATAX, sizes=DSIZES, observe=["return"], effects=False,
   skip_ret=[i for i in range(DLEN) if i not in CONTRACTS], window={"return[19]": ("NC", "10"), "return[20]": ("NC", "2")})


def among(table, col, n, of):
    """a column of names: each the name in some row of another column"""
    nm = "csv:%s:%s" % (table, col)

    def fn(val, idx, u):
        k = val.size(of[1])
        return val.elem(of[0], ((u // 7) % k,))

    return Dom(nm, "s[%s]" % n, fn)


def names(nm, n, form):
    """distinct names in any order"""
    p = perm(nm, n).fn

    def fn(val, idx, u):
        return form % (p(val, idx, u),)

    return Dom(nm, "s[%s]" % n, fn)


def text24(nm, n):
    """24 numbers separated by commas; distinct rows of four, zeros included"""

    def fn(val, idx, u):
        from vg.evalt import H

        return " " + ",".join(" %d.%d" % (H(val.seed, nm, idx, i) % 4 - 1 if i % 4 == 0 else H(val.seed, nm, idx, i) % 3, H(val.seed, nm, idx, i, 1) % 2 * 5)
                              for i in range(24)).replace("-0.", "0.") + " "

    return Dom(nm, "s[%s]" % n, fn)


def percents(nm, n, of):
    def fn(val, idx, u):
        from vg.evalt import H

        return ",".join("%d" % (H(val.seed, nm, idx, i) % 5 * 20) for i in range(val.size(of)))

    return Dom(nm, "s[%s]" % n, fn)


LD, UD = "csv:ZZLD.csv:AREA NAME", "csv:ZZUD.csv:NAME"
TABLES = {
    "ZZMC.csv": ("1", dict([("SEED", "n[1] 1..9999999"), ("LS", "n[1] 0..1"), ("END WK1", "n[1] 1..20"), ("END WK2", "n[1] 21..30"),
                            ("END WK3", "n[1] 31..51"), ("WHERE", "n[1] 1..2"), ("WHEN", "n[1] 1..2"), ("KVS", "n[1] 1..2"),
                            ("KVT", "n[1] 1..2"), ("KVL", "n[1] 1..9"), ("CVT", "f[1] 0..1"), ("FIN", "n[1] 1..9999"),
                            ("STEP", "n[1] 1..24"), ("FREQ", "n[1] 1..24"), ("MAXE", "f[1] 0..9999"), ("II", "n[1] 0..1"),
                            ("IJ", "n[1] 0..1"), ("IR", "n[1] 0..1"), ("IN", "n[1] 0..99"), ("D", "n[1] 0..1"), ("M", "n[1] 0..1")])),
    "ZZLD.csv": ("NLD", {"SN": "n[NLD] 1..NLD", "AREA NAME": names(LD, "NLD", "'A%d'"), "PEAK (MW)": "f[NLD] 0..9", "LFU": "f[NLD] 0..4",
                         "OUTAGE BEG WK": "n[NLD] 0..52", "OUTAGE END WK": "n[NLD] 0..52", "FORBIDDEN BEG WK": "n[NLD] 0..52",
                         "FORBIDDEN END WK": "n[NLD] 0..52", "SUM OF FLOWS CONSTRAINT": "f[NLD] 0..9"}),
    "ZZUD.csv": ("NUD", dict({"SN": "n[NUD] 1..NUD", "NAME": names(UD, "NUD", "'A10%d01'"), "LOC": among("ZZUD.csv", "LOC", "NUD", (LD, "NLD")),
                              "CAP1": "f[NUD] 0..9", "CAP2": "f[NUD] 0..9", "CAP3": "f[NUD] 0..9", "CAP4": "f[NUD] 0..9",
                              "DFOR": "f[NUD] 0..1", "FOR": "f[NUD] 0..1", "DER": "f[NUD] 0..99", "P/A": "n[NUD] 0..1",
                              "B1": "n[NUD] 0..52", "D1": "n[NUD] 0..9", "B2": "n[NUD] 0..52", "D2": "n[NUD] 0..9"})),
    "ZZTD.csv": ("NTD", {"SN": "n[NTD] 1..NTD", "LINE NUMBER": "n[NTD] 1..NTD", "FROM AREA": among("ZZTD.csv", "FROM AREA", "NTD", (LD, "NLD")),
                         "TO AREA": among("ZZTD.csv", "TO AREA", "NTD", (LD, "NLD")), "META DATA": text24("csv:ZZTD.csv:META DATA", "NTD")}),
    "ZZFC.csv": ("NFC", {"SN": "n[NFC] 1..NFC", "FROM AREA": among("ZZFC.csv", "FROM AREA", "NFC", (LD, "NLD")),
                         "TO AREA": among("ZZFC.csv", "TO AREA", "NFC", (LD, "NLD")), "BEG DAY": days("csv:ZZFC.csv:BEG DAY", "NFC"), "END DAY": days("csv:ZZFC.csv:END DAY", "NFC"),
                         "MW": "f[NFC] -9..9"}),
    "ZZOD.csv": ("NOD", {"SN": "n[NOD] 1..NOD", "UNIT NAME": among("ZZOD.csv", "UNIT NAME", "NOD", (UD, "NUD")),
                         "PERCENT OWNED BY AREA": percents("csv:ZZOD.csv:PERCENT OWNED BY AREA", "NOD", "NLD")}),
    "ZZDD.csv": ("NDD", dict([("SN", "n[NDD] 1..NDD"), ("LINE NUMBER", "n[NDD] 1..NDD")] + [(x, "f[NDD] 0..1") for x in
                              ("UNIT1", "UNIT2", "UNIT3", "UNIT4", "FORWARD", "BACKWARD")])),
    "ZZTC.csv": ("NTC", {}),
    "parts": {"csv:ZZTD.csv:META DATA": "24", "csv:ZZOD.csv:PERCENT OWNED BY AREA": "NLD"},
}


def columns():
    out = {}
    for t, decl in TABLES.items():
        for c, v in decl[1].items() if t != "parts" else ():
            nm = "csv:%s:%s" % (t, c)
            out[nm] = v if isinstance(v, Dom) else Dom(nm, v)
    return out


def paths(ip, st):
    from vg import terms as T

    return ip.mk_list(st, [T.fn("strsym", T.sym("path%d" % i, "f")) for i in range(2)])


DATAF1 = dict(columns(), filepaths=Dom("filepaths", "=build", paths), path0=Dom("path0", "f 0..1"), path1=Dom("path1", "f 2..3"))
NA_ = lambda p: (lambda env, ip, st: (env[p].dims[0],))
PREP = {
    "xldnew": dict(returns=(("HRLOAD", "f", lambda e, ip, st: (e["PKLOAD"].dims[0], _T().C(8760))),), single=True),
    "xporta": dict(mutates=("HRLOAD",)), "xports": dict(mutates=("HRLOAD",)),
    "dpeak": dict(returns=(("MAXHR", "i", lambda e, ip, st: (e["HRLOAD"].dims[0], _T().C(365))),
                           ("DYLOAD", "f", lambda e, ip, st: (e["HRLOAD"].dims[0], _T().C(365))),
                           ("MAXDAY", "i", lambda e, ip, st: (e["HRLOAD"].dims[0],)))),
    "wpeakf": dict(returns=(("WPEAK", "f", lambda e, ip, st: (e["DYLOAD"].dims[0], _T().C(52))),), single=True),
    "plhr": dict(returns=(("MXPLHR", "i", lambda e, ip, st: (_T().C(365),)),), single=True),
    "resca": dict(mutates=("SUSTAT",)),
    "smaint": dict(mutates=("ID",), returns=(("JPLOUT", "i", lambda e, ip, st: (_T().C(52), _T().add(e["ID"].dims[0], _T().ONE))), ("ITAB", "i"))),
}
FSIZES = {"NLD": (1, 3), "NUD": (1, 3), "NTD": (1, 3), "NFC": (0, 3), "NOD": (0, 2), "NDD": (0, 1), "NTC": (0, 2)}
ob("P23", "dataf1", DP + "dataf1:dataf1", KD + "dataf1", DATAF1, sizes=FSIZES, observe=["return"], opaque=PREP, tables=TABLES, effects=False, window={"return[19]": ("NFC", "9")})


def outages(val, idx, u):
    """after scheduling: unit, unit, area, first week and duration of two outages, kind"""
    r, c = idx
    if c in (3, 5):
        return -1 if u % 3 == 0 else (51 - u // 7 % 3 if u % 5 == 0 else u // 7 % 12 + 4 * (c - 3) * 2)
    if c in (4, 6):
        return u % 5
    return r if c < 2 else 0


ob("P15", "smaint", DP + "smaint:smaint", KD + "smaint", D(
    NOAREA="=NOAREA", ID=custom("ID", "i[NUNITS,8]", outages), ITAB="n 1..9", RATES="f[NUNITS,4] 0..9", PROBG="f[NUNITS,2] 0..1",
    DERATE="f[NUNITS] 0..1", PKLOAD="f[NOAREA] 0..9", WPEAK="f[NOAREA,52] 0..9", IREPM="n 0..1", MINRAN="n[NOAREA] 0..51",
    MAXRAN="n[NOAREA] 0..51", INHBT1="n[NOAREA] 0..51", INHBT2="n[NOAREA] 0..51", NAMU="s[NUNITS]", NUMP="s[NUNITS]"),
   opaque={"pmsc": dict(mutates=("ID",), returns=(("ITAB", "i"),), single=True, effect=True)},
   uf={"pmsc.ID": custom("pmsc.ID", "i[]", outages), "pmsc.ITAB": "n 1..9"}, sizes={"NUNITS": (1, 3), "NOAREA": (1, 2)})


def profile(val, idx, u):
    """a load profile file: every area's header and some lines of twelve loads, half of them dated"""
    from vg.evalt import H

    i = idx[0]
    n = val.size("NLN")
    areas = val.size("NOAREA")
    heads = [0] + sorted(set(1 + H(val.seed, "head", k) % max(1, n - 1) for k in range(areas - 1)))
    if i in heads:
        k = (heads.index(i) + H(val.seed, "turn")) % areas
        return "AREA:A%d\n" % (k + 1)
    loads = [H(val.seed, "load", i, j) % 50 for j in range(12)]
    return ("%02d%02d" % (i % 12 + 1, i) if i % 2 else "    ") + "     " + " ".join(("0.%02d" if H(val.seed, "per unit") % 2 else "%d") % x for x in loads) + "\n"


ob("P21", "xldnew", DP + "xldnew:xldnew", KD + "xldnew", D(
    FileNameAndPath="s 0..9", PKLOAD="f[NOAREA] 0..9", **{"file:profile": custom("file:profile", "s[NLN]", profile)}),
   lines=dict(name="file:profile", count="NLN"), sizes={"NLN": (2, 6), "NOAREA": (1, 3)}, samples=3,
   cases=[{"NLN": 5, "NOAREA": 2}, {"NLN": 6, "NOAREA": 3}])

# ------------------------------------------------------------------ matrix work of the optimisation
SX = "simplex:"


def pivot_rows(val, idx, u):
    """the row exchanged with row k is k or a later one"""
    n = val.size("N")
    return min(n - 1, idx[0] + u % max(1, n - idx[0])) if idx[0] >= 0 else 0


SQ = dict(sizes={"M": (1, 4), "N": (1, 4), "NCOL": (1, 4)})
ob("P35", "prices", MC + "rm:rm", SX + "prices", D(M="=M", CB="f[M] -5..5", TAB="f[M,M] -5..5"), **SQ)
ob("P35", "priced", MC + "rc:rc", SX + "priced", D(M="=M", PY="f[M] -5..5", A="f[M,NCOL] -5..5", IND="n 0..NCOL-1"), **SQ)
ob("P35", "column", MC + "mc:mc", SX + "column", D(M="=M", IN="n 0..NCOL-1", TAB="f[M,M] -5..5", A="f[M,NCOL] -5..5"), **SQ)
ob("P35", "factors", MC + "dgefa:dgefa", SX + "factors", D(A="f[N,N] -3..3", N="=N"), **SQ)
ob("P35", "inverse", MC + "dgedi:dgedi", SX + "inverse", D(A="f[N,N] -3..3", N="=N", IPVT=custom("IPVT", "n[N]", pivot_rows)), **SQ)
ob("P35", "pivots", MC + "dgeco:dgeco", SX + "pivots", D(A="f[N,N] -3..3", N="=N"), **SQ)

def artificial(val, idx, u):
    """the last M columns are the artificial ones; they are the first basis"""
    return val.size("NV") + idx[0]


def phase_costs(val, idx, u):
    """first the artificial columns cost one, then the curtailments"""
    if idx[0] == 0:
        return 1 if idx[1] >= val.size("NV") else 0
    return u % 3 if idx[1] < val.size("NV") else 0


LP_OPAQUE = dict(
    rm=dict(returns=(("PY", "f", lambda e, ip, st: [e["M"]]),), single=True), rc=dict(returns=(("D", "f"),), single=True),
    mc=dict(returns=(("P", "f", lambda e, ip, st: [e["M"]]),), single=True, effect=True),
    dgeco=dict(mutates=("A",), returns=(("IPVT", "i", lambda e, ip, st: [e["N"]]),), single=True), dgedi=dict(mutates=("A",)))
ob("P36", "simplex", MC + "linp:linp", SX + "optimum", D(
    M="=M", N="=NV+M", N1="=NV", A="f[M,NV+M] -2..2", XOB="f[NV+M] 0..1", XOBI=custom("XOBI", "f[2,NV+M]", phase_costs),
    IBAS=custom("IBAS", "n[M]", artificial), BS="f[M] 0..4", LCLOCK="n 1..9"), keep=("mc",), samples=500, while_gate=7,
    opaque=LP_OPAQUE, uf={"rc.D": "f[] -3..1", "mc.P": "f[] -1..2"},
    dense=True, sizes={"NV": (1, 3), "M": (1, 3)}, cases=[{"NV": 3, "M": 2}])

# ------------------------------------------------------------------ inputs stay as read
INPUT_TABLES = ("PROBG", "RATES", "DERATE", "CAPOWN", "CAPCON", "HRLOAD", "FCTERR", "MXPLHR", "JPLOUT", "JENT", "INTCH", "PROBL", "LINENO",
                "LP", "BLPA", "BLP", "BLP0", "JCRIT", "QTR", "LT", "NAMA", "LOD", "INJ", "INJB")
WORK = {"transm": ("BLP0", "LT"), "hour": ("BLP0", "LT"), "events": ("BLP0", "LT"), "contrl": ("BLP0", "LT")}  # written by the transmission analysis
DAILY_FIXED = {"hour": ("PLNDST", "RATING"), "gstate": ("PLNDST", "RATING"), "transm": ("PLNDST", "PCTAVL")}  # unit states only a weekly or season event changes


def inputs_kept():
    """every simulation routine with input tables among its parameters leaves them as they are"""
    seen = {o.code for o in OBLS["P34"]}
    for prop in sorted(OBLS):
        for o in list(OBLS[prop]):
            fn = o.code.split(":")[1]
            if o.code in seen or not o.code.startswith(MC) or o.known or o.name == "hour-jfreq":
                continue
            names = [n for n, d in o.dom.items() if n in INPUT_TABLES + DAILY_FIXED.get(fn, ()) and n not in WORK.get(fn, ()) and (not d.scalar or d.const == "build")]
            if not names:
                continue
            seen.add(o.code)
            kw = {k: v for k, v in o.__dict__.items() if k not in ("name", "code", "spec", "dom")}
            kw.update(observe=names, effects=False, errors=False, keep=None, known=())
            OBLS["P34"].append(Obl(fn + "-inputs", o.code, o.spec, o.dom, **kw))


inputs_kept()


# ------------------------------------------------------------------ queries
OBLS["P18"].append(Query("other-randomness", other_randomness(MC + "narpMain.narpMain")))


# ------------------------------------------------------------------ outage table
def outages(val, idx, u):
    """ascending multiples of ten, the first is 0; what is left of an earlier table behind them"""
    from vg.evalt import H

    i = idx[0]
    if i >= val.name_value("N"):
        return u % 5 * 10
    return 10 * sum(1 + H(val.seed, "KA", j) % 3 for j in range(1, i + 1))


def tails(val, idx, u):
    """falling from 1; now and then negligible at the end"""
    from vg.evalt import H

    i = idx[0]
    if i >= val.name_value("N"):
        return Fraction(u % 7, 9)
    p = Fraction(1)
    for j in range(1, i + 1):
        p *= Fraction(1 + H(val.seed, "PA", j) % 8, 10)
    return p / 10 ** 9 if i and i == val.name_value("N") - 1 and H(val.seed, "PA", "end") % 3 == 0 else p


for _n in (1, 2, 3, 4):
    ob("P42", "gsm%d" % _n, DP + "gsm:gsm", KD + "gsm", D(
        N="=%d" % _n, KT=custom("KT", "n 1..6", lambda v, i, u: 10 * (1 + u % 6)), KP=custom("KP", "n 0..6", lambda v, i, u: 10 * min(u % 5, v.name_value("KT") // 10)),
        P1="f 0..1", P2="f 0..1", P3="f 0..1", PA=custom("PA", "f[5000] 0..1", tails), KA=custom("KA", "n[5000] 0..90", outages)),
       observe=["return", "KA", "PA"], window={"KA": (str(3 * _n + 1),), "PA": (str(3 * _n + 2),)}, errors=False, effects=False, samples=60, while_gate=3 * _n + (4 if _n < 3 else 0))
ob("P42", "pmlolp", DP + "pmlolp:pmlolp", KD + "pmlolp", D(
    CAPLOS="f[NUNITS] 0..90", RD="f[NUNITS,3] 0..1", NGU="=NUNITS"), opaque=dict(gsm=dict(mutates=("PA", "KA"), returns=(("N", "i"),), single=True)),
   observe=["return"], errors=False, effects=False, samples=60)

# ------------------------------------------------------------------ line-state samplers of the library
def rising(name, whole):
    """cumulated probabilities of six states, sometimes exactly the number drawn; whole: the last one is 1"""

    def fn(val, idx, u):
        from vg.evalt import H

        i, k = (0, idx[0]) if whole else idx
        if whole and k >= 5:
            return 1
        out = []
        for j in range(5 if whole else 6):
            h = H(val.seed, name, i, j)
            draw = H(val.seed, "uf", ("call", "draw", (val.name_value("test_seed"), h // 5 % 3 if whole else i)))
            out.append(val.gen("f", 0, 1, draw if h % 3 == 0 else h))
        out.sort()
        return out[min(max(k, 0), len(out) - 1)]

    return fn


LPS = MC + "line_prob_sampling:"
ob("P38", "own-row", LPS + "lstate", KS + "sample_lines", D(PROBL=custom("PROBL", "f[NLINES,6] 0..1", rising("PROBL", False)), test_seed="n 0..99"))
COMMON_ROW = D(NLINES="=NLINES", PROBL=custom("PROBL", "f[6] 0..1", rising("PROBL", True)), test_seed="n 0..99")
ob("P38", "common-row", LPS + "lstate_original", KS + "sample_lines_common", COMMON_ROW)
ob("P38", "choice", LPS + "discrete_prob_gen", KS + "choose_lines", COMMON_ROW)
