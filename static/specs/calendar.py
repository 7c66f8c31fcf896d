"""Reference definitions of the event calendar and its handlers.  Read by the analysis, never executed."""
import numpy as np
from kernels import findld, findtn, gstate, hrstat, lstate, pkstat, sumcap
from network import transm


def filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS):
    new = MFA
    free = int(EVNTS[new])
    prev = -1
    cur = IPOINT
    # before the first pending event that is not earlier
    while cur != -1 and EVNTS[cur + 1] < ATRIB[0]:
        prev = cur
        cur = int(EVNTS[cur])
    EVNTS[new] = cur
    EVNTS[new + 1] = ATRIB[0]
    EVNTS[new + 2] = ATRIB[1]
    if prev == -1:
        IPOINT = new
    else:
        EVNTS[prev] = new
    return NUMINQ + 1, free, IPOINT


def remove(NUMINQ, ATRIB, EVNTS, IPOINT):
    first = IPOINT
    ATRIB[0] = EVNTS[first + 1]
    ATRIB[1] = EVNTS[first + 2]
    EVNTS[first + 1] = 0
    EVNTS[first + 2] = 0
    return first, NUMINQ - 1, int(EVNTS[first])


def initfl():
    e = np.zeros(100)
    for i in range(24):
        e[4 * i] = 4 * i + 4
    return 0, -1, e


def initl(JSTEP, EVNTS, QTR):
    # the chain: weekly, season (both at .5), hourly, three season changes, yearly
    chain = [20, 0, 24, 4, 8, 12, 16]
    times = [0.5, 0.5, JSTEP, QTR[0], QTR[1], QTR[2], 8760.0]
    kinds = [2, 3, 1, 3, 3, 3, 4]
    for k in range(7):
        c = chain[k]
        EVNTS[c] = chain[k + 1] if k < 6 else -1
        EVNTS[c + 1] = times[k]
        EVNTS[c + 2] = kinds[k]
        EVNTS[c + 3] = 0
    return np.array([JSTEP, 1.0]), 0.0, 20, 28, 7


def week(CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT):
    ATRIB[0] = CLOCK + 168
    NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
    w = (JHOUR + 1) // 168
    for u in range(PLNDST.shape[0]):
        PLNDST[u] = 1
    if w <= 51:
        for k in range(JPLOUT[w, 0]):
            PLNDST[JPLOUT[w, 1 + k]] = 0
    return IPOINT, MFA, NUMINQ


def quartr(IQ, RATES, CLOCK, ATRIB, NHRSYR, MFA, NUMINQ, IPOINT, EVNTS):
    n = RATES.shape[0]
    r = np.zeros(n)
    for u in range(n):
        r[u] = RATES[u, IQ]
    ATRIB[0] = CLOCK + NHRSYR
    NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
    return (IQ + 1) % 4, IPOINT, MFA, NUMINQ, r


def hour(ATRIB, CLOCK, MFA, JSTEP, JFREQ, NUMINQ, IPOINT, EVNTS, MXPLHR, PROBG, RATING, DERATE, PLNDST, CAPOWN, CAPCON, PROBL,
         JENT, INTCH, MXCRIT, JCRIT, NFCST, HRLOAD, FCTERR, LSFLG, LOLGHA, LOLGPA, LOLGHP, LOLGPP, LOLTHA, LOLTHP, LOLTPA, LOLTPP,
         MGNGHA, MGNGPA, MGNGHP, MGNGPP, MGNTHA, MGNTHP, MGNTPA, MGNTPP, LINENO, LP, LT, BB, ZB, BLP0, BLPA, IOI, BN, NR, NLS,
         IGSEED, ILSEED):
    n = CAPOWN.shape[0]
    ATRIB[0] = CLOCK + JSTEP
    NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
    t = (int(CLOCK) - 1) % 8760
    d = t // 24
    h = t
    if JSTEP == 24:
        h = MXPLHR[d]
    PCTAVL, AVAIL = gstate(IGSEED, PROBG, RATING, DERATE, PLNDST)
    CAPAVL, SYSOWN, SYSCON, TRNSFJ = sumcap(AVAIL, CAPOWN, CAPCON)
    LNSTAT = lstate(ILSEED, PROBL)
    TRNSFR = findtn(JENT, INTCH, d)
    STMULT = np.ones((len(LNSTAT), 2))
    IFLAG = 0
    for NST in range(NFCST):
        CAPREQ = findld(NST, h, HRLOAD, FCTERR)
        MARGIN = np.zeros(n, dtype=int)
        short = 0
        for a in range(n):
            MARGIN[a] = int(SYSCON[a] - CAPREQ[a])
            if MARGIN[a] < 0:
                short += 1
        if short == 0:
            return NUMINQ, MFA, IPOINT, t
        if short != n:
            JFLAG, FLOW, SADJ = transm(IFLAG, 0, CLOCK, h, IOI, BN, BLPA, BLP0, BB, LT, ZB, LP, NR, STMULT, LNSTAT, NLS, TRNSFR,
                                       TRNSFJ, SYSCON, CAPREQ, PLNDST, PCTAVL)
            IFLAG = 1
            if JFLAG == 0:
                return NUMINQ, MFA, IPOINT, t
            short = 0
            for a in range(n):
                MARGIN[a] = int(-SADJ[a])
                if MARGIN[a] < 0:
                    short += 1
            if short == 0:
                return NUMINQ, MFA, IPOINT, t
        hrstat(NST, MARGIN, LSFLG, LOLGHA, LOLGHP, LOLTHA, LOLTHP, MGNGHA, MGNGHP, MGNTHA, MGNTHP)
        if h == MXPLHR[d]:
            pkstat(NST, MARGIN, LOLGPA, LOLGPP, LOLTPA, LOLTPP, MGNGPA, MGNGPP, MGNTPA, MGNTPP)
    return NUMINQ, MFA, IPOINT, t
