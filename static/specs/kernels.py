"""Reference definitions of the small kernels.  This file is read by the analysis, never executed."""
import numpy as np


def hrstat(NST, MARGIN, LSFLG, LOLGHA, LOLGHP, LOLTHA, LOLTHP, MGNGHA, MGNGHP, MGNTHA, MGNTHP):
    pool = sum(MARGIN)
    short = sum([-x for x in MARGIN if x < 0])
    if pool >= 0:
        LOLTHP[NST] += 1
    else:
        LOLGHP[NST] += 1
    for j in range(len(MARGIN)):
        if MARGIN[j] < 0:
            LSFLG[j] += 1
            if pool >= 0:
                LOLTHA[j, NST] += 1
                MGNTHA[j, NST] += -MARGIN[j]
            else:
                LOLGHA[j, NST] += 1
                MGNGHA[j, NST] += -MARGIN[j]
    if pool >= 0:
        MGNTHP[NST] += short
    else:
        MGNGHP[NST] += short


def pkstat(NST, MARGIN, LOLGPA, LOLGPP, LOLTPA, LOLTPP, MGNGPA, MGNGPP, MGNTPA, MGNTPP):
    pool = sum(MARGIN)
    short = sum([-x for x in MARGIN if x < 0])
    if pool >= 0:
        LOLTPP[NST] += 1
    else:
        LOLGPP[NST] += 1
    for j in range(len(MARGIN)):
        if MARGIN[j] < 0:
            if pool >= 0:
                LOLTPA[j, NST] += 1
                MGNTPA[j, NST] += -MARGIN[j]
            else:
                LOLGPA[j, NST] += 1
                MGNGPA[j, NST] += -MARGIN[j]
    if pool >= 0:
        MGNTPP[NST] += short
    else:
        MGNGPP[NST] += short


def cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ):
    done = 1 if CLOCK >= FINISH else 0
    ssq = SSQ + (SUM - XLAST) * (SUM - XLAST)
    if IYEAR >= 5 and SUM != 0:
        mean = SUM / IYEAR
        test = CVTEST
        if CVTEST == 0:
            test = 0.025
        var = ssq / IYEAR - mean * mean
        if var < 0:
            var = 0
        # standard error of the mean below the tolerance
        if (var / IYEAR) ** 0.5 < test * mean:
            done = 1
    return done, ssq, SUM


def sumcap(AVAIL, CAPOWN, CAPCON):
    n, m = CAPOWN.shape
    CAPAVL = np.zeros((n, m))
    own = np.zeros(n)
    con = np.zeros(n)
    for j in range(n):
        for i in range(m):
            CAPAVL[j, i] = CAPOWN[j, i] * AVAIL[i]
        for i in range(m):
            own[j] += CAPOWN[j, i] * AVAIL[i]
            if CAPCON[i] == j:
                con[j] += AVAIL[i]
    diff = np.zeros(n)
    for j in range(n):
        diff[j] = con[j] - own[j]
    return CAPAVL, own, con, diff


def findld(NFACT, JHOUR, HRLOAD, FCTERR):
    n = HRLOAD.shape[0]
    r = np.zeros(n)
    for j in range(n):
        r[j] = HRLOAD[j, JHOUR] * FCTERR[j, NFACT]
    return r


def findtn(JENT, INTCH, JDAY):
    n = JENT.shape[0]
    r = np.zeros(n)
    for a in range(n):
        for b in range(n):
            if JENT[a, b] != -1:
                r[a] += INTCH[JENT[a, b], JDAY]
    for a in range(n):
        for b in range(n):
            if JENT[a, b] != -1:
                r[b] -= INTCH[JENT[a, b], JDAY]
    return r


def gstate(IGSEED, PROBG, RATING, DERATE, PLNDST):
    n = PROBG.shape[0]
    pct = np.zeros(n)
    avail = np.zeros(n)
    for i in range(n):
        s = (IGSEED[i] * 65539) % 2147483648
        IGSEED[i] = s
        u = s * 4.656613e-10
        if u < PROBG[i, 0]:
            pct[i] = 1
        else:
            if u < PROBG[i, 1]:
                pct[i] = DERATE[i]
        avail[i] = pct[i] * RATING[i] * PLNDST[i]
    return pct, avail


def lstate(ILSEED, PROBL):
    n = PROBL.shape[1]
    st = np.zeros(n, dtype=int)
    for i in range(n):
        s = (ILSEED[i] * 65539) % 2147483648
        ILSEED[i] = s
        u = s * 4.656613e-10
        st[i] = 6
        for k in range(5):
            if u <= PROBL[4 - k, i]:
                st[i] = 5 - k
    return st


def seeder(JSEED, NUNITS, NLINES):
    # one multiplicative stream hands out the start of every unit and every line
    ig = np.zeros(1 + NUNITS, dtype=int)
    il = np.zeros(1 + NLINES, dtype=int)
    s = JSEED
    for i in range(NUNITS):
        s = (s * 9649599) % 2147483648
        ig[i] = s
    ig[NUNITS] = s
    for i in range(NLINES):
        s = (s * 9649599) % 2147483648
        il[i] = s
    il[NLINES] = s
    return ig, il


def admitb(LP, BLP):
    m = LP.shape[0]
    n = 0
    for i in range(m):
        n = max(n, LP[i, 1] + 1, LP[i, 2] + 1)
    n = 1 + LP[:, 1:].max()
    bb = np.zeros((n, n))
    for i in range(m):
        bb[LP[i, 1], LP[i, 1]] += BLP[i, 0]
        bb[LP[i, 2], LP[i, 2]] += BLP[i, 0]
        bb[LP[i, 1], LP[i, 2]] -= BLP[i, 0]
        bb[LP[i, 2], LP[i, 1]] -= BLP[i, 0]
    return bb


def admitr(BB, BN, NR):
    n = BB.shape[0]
    r = np.zeros((n, n))
    lt = np.zeros(n, dtype=int)
    for i in range(n - 1):
        ii = i if i < NR else i + 1
        lt[i] = BN[ii, 0]
        for j in range(n - 1):
            r[i, j] = BB[ii, j if j < NR else j + 1]
    lt[n - 1] = BN[NR, 0]
    return r, lt


def theta(Z, INJ):
    n, m = Z.shape
    r = np.zeros(n)
    for i in range(n):
        for j in range(m):
            r[i] += Z[i, j] * INJ[j]
    return r


def thetac(THET, LT):
    n = len(THET)
    r = np.zeros(n)
    for i in range(n - 1):
        r[LT[i]] = THET[i]
    return r


def flo(LP, BLP, THET):
    m = LP.shape[0]
    n = len(THET)
    flow = np.zeros(m)
    s = np.zeros(n)
    for i in range(m):
        flow[i] = BLP[i, 0] * (THET[LP[i, 1]] - THET[LP[i, 2]])
    for j in range(n):
        for i in range(m):
            f = BLP[i, 0] * (THET[LP[i, 1]] - THET[LP[i, 2]])
            if LP[i, 2] == j:
                s[j] += f
            if LP[i, 1] == j:
                s[j] -= f
    return s, flow


def assign(INJ, LOD, LT, NN, NLS):
    pos = 0
    neg = 0
    for i in range(NN):
        if INJ[i] > 0:
            pos += INJ[i]
        else:
            neg += -INJ[i]
    out = np.zeros(NN)
    served = np.zeros(NN)
    if neg <= pos:
        for i in range(NN):
            out[i] = INJ[i]
            if INJ[i] > 0:
                out[i] = INJ[i] * neg / pos
    elif NLS != 0:
        for i in range(NN):
            out[i] = INJ[i]
            if INJ[i] <= 0:
                out[i] = INJ[i] * pos / neg
                served[LT[i]] = out[i] - INJ[i]
    else:
        total = 0
        for i in range(NN):
            total += LOD[i]
        for i in range(NN):
            served[LT[i]] = LOD[LT[i]] * (neg - pos) / total
        for i in range(NN):
            out[i] = INJ[i] + LOD[LT[i]] * (neg - pos) / total
    return out, served


def admitm(BB, NII, NJJ, BIJ):
    old = BB.copy()
    n = BB.shape[0]
    for a in range(n):
        for b in range(n):
            d = 0
            if a == NII:
                if b == NII:
                    d += BIJ
                if b == NJJ:
                    d -= BIJ
            if a == NJJ:
                if b == NJJ:
                    d += BIJ
                if b == NII:
                    d -= BIJ
            BB[a, b] = old[a, b] + d


def admref(BB, NII, BIJ):
    BB[NII, NII] = BB[NII, NII] + BIJ


def ximpa(ZB, ZIJ, NI, NJ):
    n = ZB.shape[0]
    r = np.zeros((n, n))
    d = ZB[NI, NI] + ZB[NJ, NJ] - 2 * ZB[NI, NJ] - ZIJ
    for a in range(n):
        for b in range(n):
            r[a, b] = ZB[a, b] - (ZB[a, NI] - ZB[a, NJ]) * (ZB[b, NI] - ZB[b, NJ]) / d
    return r


def ximpar(ZB, ZIJ, NI):
    n = ZB.shape[0]
    r = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            r[a, b] = ZB[a, b] - ZB[a, NI] * ZB[b, NI] / (ZB[NI, NI] - ZIJ)
    return r


def net(B, B1, RES, IBAS, BS, M, N):
    for i in range(N):
        for j in range(3):
            RES[i, j] = 0
    for i in range(M):
        RES[IBAS[i], 0] = BS[i] if IBAS[i] < N - M else -BS[i]
    for i in range(M):
        RES[N - M + i, 0] += B[i]
        if B1[i] < 0:
            RES[N - M + i, 1] = 1


def xporta(JENT, INTCH, HRLOAD):
    n = JENT.shape[0]
    h = HRLOAD.shape[1]
    for a in range(n):
        for k in range(h):
            d = 0
            for b in range(n):
                if JENT[a, b] != -1:
                    d += INTCH[JENT[a, b], k // 24]
                if JENT[b, a] != -1:
                    d -= INTCH[JENT[b, a], k // 24]
            HRLOAD[a, k] += d


def xports(JENT, INTCH, HRLOAD):
    n = JENT.shape[0]
    h = HRLOAD.shape[1]
    for a in range(n):
        for k in range(h):
            d = 0
            for b in range(n):
                if JENT[a, b] != -1:
                    d -= INTCH[JENT[a, b], k // 24]
                if JENT[b, a] != -1:
                    d += INTCH[JENT[b, a], k // 24]
            HRLOAD[a, k] += d


def dpeak(HRLOAD, hour_within_day=24):
    n = HRLOAD.shape[0]
    days = HRLOAD.shape[1] // hour_within_day
    MAXHR = np.zeros((n, days), dtype=int)
    DYLOAD = np.zeros((n, days))
    MAXDAY = np.zeros(n, dtype=int)
    for a in range(n):
        for d in range(days):
            day = HRLOAD[a, d * hour_within_day:(d + 1) * hour_within_day]
            DYLOAD[a, d] = day.max()
            MAXHR[a, d] = d * hour_within_day + day.argmax()
    for a in range(n):
        MAXDAY[a] = DYLOAD[a, :].argmax()
    return MAXHR, DYLOAD, MAXDAY


def plhr(HRLOAD):
    n, h = HRLOAD.shape
    days = h // 24
    pool = np.zeros(h)
    for k in range(h):
        for a in range(n):
            pool[k] += HRLOAD[a, k]
    r = np.zeros(days, dtype=int)
    for d in range(days):
        r[d] = 24 * d + pool[24 * d:24 * d + 24].argmax()
    return r


def wpeakf(DYLOAD):
    n = DYLOAD.shape[0]
    W = np.zeros((n, 52))
    for a in range(n):
        for w in range(52):
            if w < 51:
                W[a, w] = DYLOAD[a, 7 * w:7 * w + 7].max()
            else:
                W[a, w] = DYLOAD[a, 357:365].max()
    return W


def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
    n = SUSTAT.shape[0] - 1
    m = CAPOWN.shape[1]
    for i in range(n):
        d = MAXDAY[i]
        season = 0
        for q in range(3):
            if 24 * (d + 1) > QTR[q]:
                season += 1
        for j in range(m):
            SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, season]
        for b in range(n):
            if JENT[i, b] != -1:
                SUSTAT[i, 1] -= INTCH[JENT[i, b], d]
            if JENT[b, i] != -1:
                SUSTAT[i, 1] += INTCH[JENT[b, i], d]


def tm1(BN, LP, BLP, NR):
    n = BN.shape[0]
    m = LP.shape[0]
    b0 = np.zeros(m)
    for i in range(m):
        b0[i] = BLP[i, 0]
    full = admitb(LP, BLP)
    BB, LT = admitr(full, BN, NR)
    Z = np.linalg.inv(BB[:n - 1, :n - 1])
    ZB = np.zeros((n, n))
    for i in range(n - 1):
        for j in range(n - 1):
            ZB[i, j] = Z[i, j]
    return b0, BB, LT, ZB


def sample_lines(PROBL, test_seed=None):
    # each line has its own row of cumulative probabilities
    rng = np.random.default_rng(test_seed)
    n = PROBL.shape[0]
    st = np.zeros(n, dtype=int)
    for i in range(n):
        u = rng.random()
        for k in range(6):
            if u < PROBL[i, 5 - k]:
                st[i] = 6 - k
    return st


def sample_lines_common(NLINES, PROBL, test_seed=None):
    # all lines share one row of cumulative probabilities
    rng = np.random.default_rng(test_seed)
    st = np.zeros(NLINES, dtype=int)
    for i in range(NLINES):
        u = rng.random()
        st[i] = 6
        for k in range(5):
            if u <= PROBL[4 - k]:
                st[i] = 5 - k
    return st


def choose_lines(NLINES, PROBL, test_seed=None):
    rng = np.random.default_rng(test_seed)
    p = np.zeros(6)
    p[0] = PROBL[0]
    for k in range(1, 6):
        p[k] = PROBL[k] - PROBL[k - 1]
    return rng.choice(np.array([1, 2, 3, 4, 5, 6]), NLINES, p=p)
