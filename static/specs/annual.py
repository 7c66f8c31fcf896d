"""Reference definitions: end of a simulated year, snapshots, final report, event dispatch."""
import numpy as np

from calendar import filem, hour, quartr, remove, week
from kernels import cvchk


def row(f, daily, first, second, lole, eue, plole, peue, tag):
    """one line of a result table: losses, mean shortage, energy, daily-peak losses and their mean shortage"""
    m = 0.0
    if lole > 0:
        m = eue / lole
    mp = 0.0
    if plole > 0:
        mp = peue / plole
    if daily == 1:
        f.write("%s %s %s %s %s" % (first, second, plole, mp, tag))
    else:
        f.write("%s %s %s %s %s %s %s %s" % (first, second, lole, m, eue, plole, mp, tag))


def prow(f, daily, first, lole, eue, plole, peue, tag):
    """the same without an area"""
    m = 0.0
    if lole > 0:
        m = eue / lole
    mp = 0.0
    if plole > 0:
        mp = peue / plole
    if daily == 1:
        f.write("%s %s %s %s" % (first, plole, mp, tag))
    else:
        f.write("%s %s %s %s %s %s %s" % (first, lole, m, eue, plole, mp, tag))


def intm(ATRIB, CLOCK, IPOINT, XLAST, SSQ, MFA, NUMINQ, ITAB, INTVT, EVNTS, IGSEED, ILSEED, LT, BB, ZB, SOLTHA, SOLGHA, SOLSHA,
         SGNTHA, SGNGHA, SGNSHA, SOLTPA, SOLGPA, SOLSPA, SGNTPA, SGNGPA, SGNSPA, SWLSHA, SWLGHA, SWLTHA, SWNSHA, SWNGHA,
         SWNTHA, SWLSPA, SWLGPA, SWLTPA, SWNSPA, SWNGPA, SWNTPA, SOLTHP, SOLGHP, SOLSHP, SGNTHP, SGNGHP, SGNSHP, SOLTPP,
         SOLGPP, SOLSPP, SGNTPP, SGNGPP, SGNSPP, HLOLE, DPLOLE, EUES, XNEWA, XNEWP, WOLSHA, LSFLG):
    pass


def report(IYEAR, ITAB, INDX, SUSTAT, DPLOLE, EUES, HLOLE, LSTEP, NAMA, NFCST, SGNGHA, SGNGHP, SGNGPA, SGNGPP, SGNSHA, SGNSHP,
           SGNSPA, SGNSPP, SGNTHA, SGNTHP, SGNTPA, SGNTPP, SOLGHA, SOLGHP, SOLGPA, SOLGPP, SOLSHA, SOLSHP, SOLSPA, SOLSPP,
           SOLTHA, SOLTHP, SOLTPA, SOLTPP, SWLGHA, SWLGHP, SWLGPA, SWLGPP, SWLSHA, SWLSHP, SWLSPA, SWLSPP, SWLTHA, SWLTHP,
           SWLTPA, SWLTPP, SWNGHA, SWNGHP, SWNGPA, SWNGPP, SWNSHA, SWNSHP, SWNSPA, SWNSPP, SWNTHA, SWNTHP, SWNTPA, SWNTPP, XNEWA,
           XNEWP):
    return ITAB + 1


def year(ATRIB, CLOCK, CVTEST, DPLOLE, EUES, EVNTS, FINISH, HLOLE, IPOINT, MFA, NUMINQ, RFLAG, LSFLG, NAMA, SSQ, SUSTAT, XLAST,
         BB, LT, ZB, INTV, INTVT, IOJ, KVLOC, KVSTAT, KVTYPE, KVWHEN, KWHERE, LSTEP, NFCST, NORR, INDX, ITAB, LOLGHA, LOLGHP,
         LOLGPA, LOLGPP, LOLTHA, LOLTHP, LOLTPA, LOLTPP, MGNGHA, MGNGHP, MGNGPA, MGNGPP, MGNTHA, MGNTHP, MGNTPA, MGNTPP,
         SGNGHA, SGNGHP, SGNGPA, SGNGPP, SGNSHA, SGNSHP, SGNSPA, SGNSPP, SGNTHA, SGNTHP, SGNTPA, SGNTPP, SOLGHA, SOLGHP,
         SOLGPA, SOLGPP, SOLSHA, SOLSHP, SOLSPA, SOLSPP, SOLTHA, SOLTHP, SOLTPA, SOLTPP, SWLGHA, SWLGHP, SWLGPA, SWLGPP,
         SWLSHA, SWLSHP, SWLSPA, SWLSPP, SWLTHA, SWLTHP, SWLTPA, SWLTPP, SWNGHA, SWNGHP, SWNGPA, SWNGPP, SWNSHA, SWNSHP,
         SWNSPA, SWNSPP, SWNTHA, SWNTHP, SWNTPA, SWNTPP, XNEWA, XNEWP):
    ATRIB[0] = CLOCK + 8760
    ATRIB[1] = 4
    NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
    n = EUES.shape[0]
    y = CLOCK // 8760
    if NFCST == 1:
        w = np.array([1.0, 0.0, 0.0, 0.0, 0.0])
    else:
        w = np.array([0.0668, 0.2417, 0.383, 0.2417, 0.0668])
    LOLSHA = np.zeros((n, NFCST))
    WOLGHA = np.zeros(n)
    WOLTHA = np.zeros(n)
    WOLSHA = np.zeros(n)
    for a in range(n):
        for e in range(NFCST):
            LOLSHA[a, e] = LOLGHA[a, e] + LOLTHA[a, e]
            SOLGHA[a, e] += LOLGHA[a, e]
            WOLGHA[a] += LOLGHA[a, e] * w[e]
            SOLTHA[a, e] += LOLTHA[a, e]
            WOLTHA[a] += LOLTHA[a, e] * w[e]
            SOLSHA[a, e] += LOLSHA[a, e]
            WOLSHA[a] += LOLSHA[a, e] * w[e]
        SWLGHA[a] += WOLGHA[a]
        SWLTHA[a] += WOLTHA[a]
        SWLSHA[a] += WOLSHA[a]
    LOLSHP = np.zeros(NFCST)
    WOLGHP = 0.0
    WOLTHP = 0.0
    WOLSHP = 0.0
    for e in range(NFCST):
        LOLSHP[e] = LOLGHP[e] + LOLTHP[e]
        SOLGHP[e] += LOLGHP[e]
        WOLGHP += LOLGHP[e] * w[e]
        SOLTHP[e] += LOLTHP[e]
        WOLTHP += LOLTHP[e] * w[e]
        SOLSHP[e] += LOLSHP[e]
        WOLSHP += LOLSHP[e] * w[e]
    SWLGHP[()] += WOLGHP
    SWLTHP[()] += WOLTHP
    SWLSHP[()] += WOLSHP
    MGNSHA = np.zeros((n, NFCST))
    WGNGHA = np.zeros(n)
    WGNTHA = np.zeros(n)
    WGNSHA = np.zeros(n)
    for a in range(n):
        for e in range(NFCST):
            MGNSHA[a, e] = MGNGHA[a, e] + MGNTHA[a, e]
            SGNGHA[a, e] += MGNGHA[a, e]
            WGNGHA[a] += MGNGHA[a, e] * w[e]
            SGNTHA[a, e] += MGNTHA[a, e]
            WGNTHA[a] += MGNTHA[a, e] * w[e]
            SGNSHA[a, e] += MGNSHA[a, e]
            WGNSHA[a] += MGNSHA[a, e] * w[e]
        SWNGHA[a] += WGNGHA[a]
        SWNTHA[a] += WGNTHA[a]
        SWNSHA[a] += WGNSHA[a]
    MGNSHP = np.zeros(NFCST)
    WGNGHP = 0.0
    WGNTHP = 0.0
    WGNSHP = 0.0
    for e in range(NFCST):
        MGNSHP[e] = MGNGHP[e] + MGNTHP[e]
        SGNGHP[e] += MGNGHP[e]
        WGNGHP += MGNGHP[e] * w[e]
        SGNTHP[e] += MGNTHP[e]
        WGNTHP += MGNTHP[e] * w[e]
        SGNSHP[e] += MGNSHP[e]
        WGNSHP += MGNSHP[e] * w[e]
    SWNGHP[()] += WGNGHP
    SWNTHP[()] += WGNTHP
    SWNSHP[()] += WGNSHP
    LOLSPA = np.zeros((n, NFCST))
    WOLGPA = np.zeros(n)
    WOLTPA = np.zeros(n)
    WOLSPA = np.zeros(n)
    for a in range(n):
        for e in range(NFCST):
            LOLSPA[a, e] = LOLGPA[a, e] + LOLTPA[a, e]
            SOLGPA[a, e] += LOLGPA[a, e]
            WOLGPA[a] += LOLGPA[a, e] * w[e]
            SOLTPA[a, e] += LOLTPA[a, e]
            WOLTPA[a] += LOLTPA[a, e] * w[e]
            SOLSPA[a, e] += LOLSPA[a, e]
            WOLSPA[a] += LOLSPA[a, e] * w[e]
        SWLGPA[a] += WOLGPA[a]
        SWLTPA[a] += WOLTPA[a]
        SWLSPA[a] += WOLSPA[a]
    LOLSPP = np.zeros(NFCST)
    WOLGPP = 0.0
    WOLTPP = 0.0
    WOLSPP = 0.0
    for e in range(NFCST):
        LOLSPP[e] = LOLGPP[e] + LOLTPP[e]
        SOLGPP[e] += LOLGPP[e]
        WOLGPP += LOLGPP[e] * w[e]
        SOLTPP[e] += LOLTPP[e]
        WOLTPP += LOLTPP[e] * w[e]
        SOLSPP[e] += LOLSPP[e]
        WOLSPP += LOLSPP[e] * w[e]
    SWLGPP[()] += WOLGPP
    SWLTPP[()] += WOLTPP
    SWLSPP[()] += WOLSPP
    MGNSPA = np.zeros((n, NFCST))
    WGNGPA = np.zeros(n)
    WGNTPA = np.zeros(n)
    WGNSPA = np.zeros(n)
    for a in range(n):
        for e in range(NFCST):
            MGNSPA[a, e] = MGNGPA[a, e] + MGNTPA[a, e]
            SGNGPA[a, e] += MGNGPA[a, e]
            WGNGPA[a] += MGNGPA[a, e] * w[e]
            SGNTPA[a, e] += MGNTPA[a, e]
            WGNTPA[a] += MGNTPA[a, e] * w[e]
            SGNSPA[a, e] += MGNSPA[a, e]
            WGNSPA[a] += MGNSPA[a, e] * w[e]
        SWNGPA[a] += WGNGPA[a]
        SWNTPA[a] += WGNTPA[a]
        SWNSPA[a] += WGNSPA[a]
    MGNSPP = np.zeros(NFCST)
    WGNGPP = 0.0
    WGNTPP = 0.0
    WGNSPP = 0.0
    for e in range(NFCST):
        MGNSPP[e] = MGNGPP[e] + MGNTPP[e]
        SGNGPP[e] += MGNGPP[e]
        WGNGPP += MGNGPP[e] * w[e]
        SGNTPP[e] += MGNTPP[e]
        WGNTPP += MGNTPP[e] * w[e]
        SGNSPP[e] += MGNSPP[e]
        WGNSPP += MGNSPP[e] * w[e]
    SWNGPP[()] += WGNGPP
    SWNTPP[()] += WGNTPP
    SWNSPP[()] += WGNSPP
    for a in range(n):
        XNEWA[a, 0] += WOLSHA[a] * WOLSHA[a]
        XNEWA[a, 1] += WGNSHA[a] * WGNSHA[a]
        XNEWA[a, 2] += WOLSPA[a] * WOLSPA[a]
        HLOLE[a, min(21, int(LOLSHA[a, NORR]))] += 1
        DPLOLE[a, min(21, int(LOLSPA[a, NORR]))] += 1
        EUES[a, min(21, int(MGNSHA[a, NORR] / LSTEP))] += 1
    XNEWP[0] += WOLSHP * WOLSHP
    XNEWP[1] += WGNSHP * WGNSHP
    XNEWP[2] += WOLSPP * WOLSPP
    if IOJ != 0:
        ITAB += 1
        f = open("output.txt", "a")
        f.write("%d" % y)
        titles(f, INDX)
        for a in range(n):
            for e in range(NFCST):
                row(f, INDX, a, e, LOLGHA[a, e], MGNGHA[a, e], LOLGPA[a, e], MGNGPA[a, e], "GC")
                row(f, INDX, a, e, LOLTHA[a, e], MGNTHA[a, e], LOLTPA[a, e], MGNTPA[a, e], "TC")
                row(f, INDX, a, e, LOLSHA[a, e], MGNSHA[a, e], LOLSPA[a, e], MGNSPA[a, e], "GT")
            row(f, INDX, a, "AV", WOLGHA[a], WGNGHA[a], WOLGPA[a], WGNGPA[a], "GC")
            row(f, INDX, a, "AV", WOLTHA[a], WGNTHA[a], WOLTPA[a], WGNTPA[a], "TC")
            row(f, INDX, a, "AV", WOLSHA[a], WGNSHA[a], WOLSPA[a], WGNSPA[a], "GT")
        for e in range(NFCST):
            prow(f, INDX, e, LOLGHP[e], MGNGHP[e], LOLGPP[e], MGNGPP[e], "GC")
            prow(f, INDX, e, LOLTHP[e], MGNTHP[e], LOLTPP[e], MGNTPP[e], "TC")
            prow(f, INDX, e, LOLSHP[e], MGNSHP[e], LOLSPP[e], MGNSPP[e], "GT")
        prow(f, INDX, "AV", WOLGHP, WGNGHP, WOLGPP, WGNGPP, "GC")
        prow(f, INDX, "AV", WOLTHP, WGNTHP, WOLTPP, WGNTPP, "TC")
        prow(f, INDX, "AV", WOLSHP, WGNSHP, WOLSPP, WGNSPP, "GT")
        f.close()
    for a in range(n):
        for e in range(NFCST):
            LOLGHA[a, e] = 0
    for e in range(NFCST):
        LOLGHP[e] = 0
    for a in range(n):
        for e in range(NFCST):
            LOLTHA[a, e] = 0
    for e in range(NFCST):
        LOLTHP[e] = 0
    for a in range(n):
        for e in range(NFCST):
            LOLGPA[a, e] = 0
    for e in range(NFCST):
        LOLGPP[e] = 0
    for a in range(n):
        for e in range(NFCST):
            LOLTPA[a, e] = 0
    for e in range(NFCST):
        LOLTPP[e] = 0
    for a in range(n):
        for e in range(NFCST):
            MGNGHA[a, e] = 0
    for e in range(NFCST):
        MGNGHP[e] = 0
    for a in range(n):
        for e in range(NFCST):
            MGNTHA[a, e] = 0
    for e in range(NFCST):
        MGNTHP[e] = 0
    for a in range(n):
        for e in range(NFCST):
            MGNGPA[a, e] = 0
    for e in range(NFCST):
        MGNGPP[e] = 0
    for a in range(n):
        for e in range(NFCST):
            MGNTPA[a, e] = 0
    for e in range(NFCST):
        MGNTPP[e] = 0
    if KWHERE == 1:
        if KVWHEN == 1:
            if KVSTAT == 1:
                if KVTYPE == 1:
                    v = SWLSHA[KVLOC]
                else:
                    v = SOLSHA[KVLOC, NORR]
            else:
                if KVTYPE == 1:
                    v = SWNSHA[KVLOC]
                else:
                    v = SGNSHA[KVLOC, NORR]
        else:
            if KVSTAT == 1:
                if KVTYPE == 1:
                    v = SWLSPA[KVLOC]
                else:
                    v = SOLSPA[KVLOC, NORR]
            else:
                if KVTYPE == 1:
                    v = SWNSPA[KVLOC]
                else:
                    v = SGNSPA[KVLOC, NORR]
    else:
        if KVWHEN == 1:
            if KVSTAT == 1:
                if KVTYPE == 1:
                    v = SWLSHP[()]
                else:
                    v = SOLSHP[NORR]
            else:
                if KVTYPE == 1:
                    v = SWNSHP[()]
                else:
                    v = SGNSHP[NORR]
        else:
            if KVSTAT == 1:
                if KVTYPE == 1:
                    v = SWLSPP[()]
                else:
                    v = SOLSPP[NORR]
            else:
                if KVTYPE == 1:
                    v = SWNSPP[()]
                else:
                    v = SGNSPP[NORR]
    RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, y, CVTEST, v, XLAST, SSQ)
    if y == INTVT or y == int(FINISH / 8760):
        intm(ATRIB, CLOCK, IPOINT, XLAST, SSQ, MFA, NUMINQ, ITAB, INTVT, EVNTS, 0, 0, LT, BB, ZB, SOLTHA, SOLGHA, SOLSHA, SGNTHA,
             SGNGHA, SGNSHA, SOLTPA, SOLGPA, SOLSPA, SGNTPA, SGNGPA, SGNSPA, SWLSHA, SWLGHA, SWLTHA, SWNSHA, SWNGHA, SWNTHA,
             SWLSPA, SWLGPA, SWLTPA, SWNSPA, SWNGPA, SWNTPA, SOLTHP, SOLGHP, SOLSHP, SGNTHP, SGNGHP, SGNSHP, SOLTPP, SOLGPP,
             SOLSPP, SGNTPP, SGNGPP, SGNSPP, HLOLE, DPLOLE, EUES, XNEWA, XNEWP, np.zeros(n), LSFLG)
    if y == INTVT:
        INTVT = INTVT + INTV
    if RFLAG == 1 or CLOCK >= FINISH:
        ITAB = report(y, ITAB, INDX, SUSTAT, DPLOLE, EUES, HLOLE, LSTEP, NAMA, NFCST, SGNGHA, SGNGHP, SGNGPA, SGNGPP, SGNSHA, SGNSHP,
                      SGNSPA, SGNSPP, SGNTHA, SGNTHP, SGNTPA, SGNTPP, SOLGHA, SOLGHP, SOLGPA, SOLGPP, SOLSHA, SOLSHP, SOLSPA, SOLSPP,
                      SOLTHA, SOLTHP, SOLTPA, SOLTPP, SWLGHA, SWLGHP, SWLGPA, SWLGPP, SWLSHA, SWLSHP, SWLSPA, SWLSPP, SWLTHA, SWLTHP,
                      SWLTPA, SWLTPP, SWNGHA, SWNGHP, SWNGPA, SWNGPP, SWNSHA, SWNSHP, SWNSPA, SWNSPP, SWNTHA, SWNTHP, SWNTPA, SWNTPP, XNEWA,
                      XNEWP)
    return IPOINT, MFA, NUMINQ, SSQ, XLAST, RFLAG, INTVT, ITAB


def titles(f, daily):
    """the columns are named after what they hold"""
    if daily != 1:
        f.write("HLOLE XLOL EUE LOLE XLOL")
    else:
        f.write("LOLE XLOL")


def avg(f, daily, first, second, years, lole, eue, plole, peue, tag):
    """one line of the final report: averages per year, mean size of a shortage"""
    m = 0.0
    if lole > 0:
        m = eue / lole
    mp = 0.0
    if plole > 0:
        mp = peue / plole
    if daily == 1:
        f.write("%s %s %s %s %s" % (first, second, plole / years, mp, tag))
    else:
        f.write("%s %s %s %s %s %s %s %s" % (first, second, lole / years, m, eue / years, plole / years, mp, tag))


def pavg(f, daily, first, years, lole, eue, plole, peue, tag):
    m = 0.0
    if lole > 0:
        m = eue / lole
    mp = 0.0
    if plole > 0:
        mp = peue / plole
    if daily == 1:
        f.write("%s %s %s %s" % (first, plole / years, mp, tag))
    else:
        f.write("%s %s %s %s %s %s %s" % (first, lole / years, m, eue / years, plole / years, mp, tag))


def deviation(squares, total, years):
    """standard deviation of the mean of `years` yearly values, in percent of the mean"""
    if total <= 0:
        return 0.0
    mean = total / years
    var = squares / years - mean * mean
    if var < 0:
        var = 0.0
    return (var / years) ** 0.5 / mean * 100


def summary(f, daily, SUSTAT, a, head, dh, de, dp):
    if daily == 1:
        f.write("%s %s %s %s %s %s" % (head, SUSTAT[a, 0], SUSTAT[a, 1], SUSTAT[a, 2], SUSTAT[a, 4], dp))
    else:
        f.write("%s %s %s %s %s %s %s %s %s %s" % (head, SUSTAT[a, 0], SUSTAT[a, 1], SUSTAT[a, 2], SUSTAT[a, 3], dh, SUSTAT[a, 5], de,
                                                   SUSTAT[a, 4], dp))


def reserve(SUSTAT, a):
    if SUSTAT[a, 0] > 0:
        SUSTAT[a, 2] = (SUSTAT[a, 1] - SUSTAT[a, 0]) / SUSTAT[a, 0] * 100


def final(IYEAR, ITAB, INDX, SUSTAT, DPLOLE, EUES, HLOLE, LSTEP, NAMA, NFCST, SGNGHA, SGNGHP, SGNGPA, SGNGPP, SGNSHA, SGNSHP,
          SGNSPA, SGNSPP, SGNTHA, SGNTHP, SGNTPA, SGNTPP, SOLGHA, SOLGHP, SOLGPA, SOLGPP, SOLSHA, SOLSHP, SOLSPA, SOLSPP,
          SOLTHA, SOLTHP, SOLTPA, SOLTPP, SWLGHA, SWLGHP, SWLGPA, SWLGPP, SWLSHA, SWLSHP, SWLSPA, SWLSPP, SWLTHA, SWLTHP,
          SWLTPA, SWLTPP, SWNGHA, SWNGHP, SWNGPA, SWNGPP, SWNSHA, SWNSHP, SWNSPA, SWNSPP, SWNTHA, SWNTHP, SWNTPA, SWNTPP, XNEWA,
          XNEWP):
    n = SUSTAT.shape[0] - 1
    y = IYEAR
    f = open("output.txt", "a")
    ITAB += 1
    f.write("%d" % ITAB)
    f.write("%d" % y)
    titles(f, INDX)
    for a in range(n):
        if NFCST != 1:
            for e in range(NFCST):
                avg(f, INDX, a + 1, e + 1, y, SOLGHA[a, e], SGNGHA[a, e], SOLGPA[a, e], SGNGPA[a, e], "GC")
                avg(f, INDX, a + 1, e + 1, y, SOLTHA[a, e], SGNTHA[a, e], SOLTPA[a, e], SGNTPA[a, e], "TC")
                avg(f, INDX, a + 1, e + 1, y, SOLSHA[a, e], SGNSHA[a, e], SOLSPA[a, e], SGNSPA[a, e], "GT")
        avg(f, INDX, a + 1, "AV", y, SWLGHA[a], SWNGHA[a], SWLGPA[a], SWNGPA[a], "GC")
        avg(f, INDX, a + 1, "AV", y, SWLTHA[a], SWNTHA[a], SWLTPA[a], SWNTPA[a], "TC")
        avg(f, INDX, a + 1, "AV", y, SWLSHA[a], SWNSHA[a], SWLSPA[a], SWNSPA[a], "GT")
    if NFCST != 1:
        for e in range(NFCST):
            pavg(f, INDX, e + 1, y, SOLGHP[e], SGNGHP[e], SOLGPP[e], SGNGPP[e], "GC")
            pavg(f, INDX, e + 1, y, SOLTHP[e], SGNTHP[e], SOLTPP[e], SGNTPP[e], "TC")
            pavg(f, INDX, e + 1, y, SOLSHP[e], SGNSHP[e], SOLSPP[e], SGNSPP[e], "GT")
    pavg(f, INDX, "AV", y, SWLGHP[()], SWNGHP[()], SWLGPP[()], SWNGPP[()], "GC")
    pavg(f, INDX, "AV", y, SWLTHP[()], SWNTHP[()], SWLTPP[()], SWNTPP[()], "TC")
    pavg(f, INDX, "AV", y, SWLSHP[()], SWNSHP[()], SWLSPP[()], SWNSPP[()], "GT")
    ITAB += 1
    f.write("%d" % ITAB)
    if INDX != 1:
        f.write("HLOLE EUE LOLE")
    for a in range(n):
        SUSTAT[a, 3] = SWLSHA[a] / y
        SUSTAT[a, 4] = SWLSPA[a] / y
        SUSTAT[a, 5] = SWNSHA[a] / y
        reserve(SUSTAT, a)
        summary(f, INDX, SUSTAT, a, NAMA[a], deviation(XNEWA[a, 0], SWLSHA[a], y), deviation(XNEWA[a, 1], SWNSHA[a], y),
                deviation(XNEWA[a, 2], SWLSPA[a], y))
        SUSTAT[n, 0] += SUSTAT[a, 0]
        SUSTAT[n, 1] += SUSTAT[a, 1]
    SUSTAT[n, 3] = SWLSHP[()] / y
    SUSTAT[n, 4] = SWLSPP[()] / y
    SUSTAT[n, 5] = SWNSHP[()] / y
    reserve(SUSTAT, n)
    summary(f, INDX, SUSTAT, n, "", deviation(XNEWP[0], SWLSHP[()], y), deviation(XNEWP[1], SWNSHP[()], y),
            deviation(XNEWP[2], SWLSPP[()], y))
    for a in range(n):
        ITAB += 1
        f.write("%d %d" % (ITAB, a + 1))
        th = 0.0
        td = 0.0
        te = 0.0
        for k in range(22):
            th += HLOLE[a, k]
            td += DPLOLE[a, k]
            te += EUES[a, k]
        for k in range(22):
            f.write("%s %s %s %s %s %s %s %s" % (k, DPLOLE[a, k], DPLOLE[a, k] / td, HLOLE[a, k], HLOLE[a, k] / th, k * LSTEP,
                                                 EUES[a, k], EUES[a, k] / te))
    f.close()
    return ITAB
