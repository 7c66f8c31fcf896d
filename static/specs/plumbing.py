"""Reference definitions of the simulation's set-up, main loop and dispatch.  Read by the analysis, never executed."""
import pickle
from pathlib import Path

import numpy as np
from annual import report, year
from calendar import hour, initfl, initl, quartr, remove, week
from kernels import seeder


def events(
    NUMBER, RFLAG, CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT, IQ, RATES, NHRSYR, JSTEP, JFREQ, MXPLHR, PROBG,
    RATING, DERATE, CAPOWN, CAPCON, PROBL, JENT, INTCH, MXCRIT, JCRIT, NFCST, HRLOAD, FCTERR, LSFLG, LOLGHA, LOLGPA, LOLGHP, LOLGPP,
    LOLTHA, LOLTHP, LOLTPA, LOLTPP, MGNGHA, MGNGPA, MGNGHP, MGNGPP, MGNTHA, MGNTHP, MGNTPA, MGNTPP, LINENO, LP, LT, BB, ZB, BLP0,
    BLPA, IOI, BN, NR, NLS, CVTEST, DPLOLE, EUES, FINISH, HLOLE, NAMA, SSQ, SUSTAT, XLAST, INTV, INTVT, IOJ, KVLOC, KVSTAT, KVTYPE,
    KVWHEN, KWHERE, LSTEP, NORR, INDX, ITAB, SGNGHA, SGNGHP, SGNGPA, SGNGPP, SGNSHA, SGNSHP, SGNSPA, SGNSPP, SGNTHA, SGNTHP, SGNTPA,
    SGNTPP, SOLGHA, SOLGHP, SOLGPA, SOLGPP, SOLSHA, SOLSHP, SOLSPA, SOLSPP, SOLTHA, SOLTHP, SOLTPA, SOLTPP, SWLGHA, SWLGHP, SWLGPA,
    SWLGPP, SWLSHA, SWLSHP, SWLSPA, SWLSPP, SWLTHA, SWLTHP, SWLTPA, SWLTPP, SWNGHA, SWNGHP, SWNGPA, SWNGPP, SWNSHA, SWNSHP, SWNSPA,
    SWNSPP, SWNTHA, SWNTHP, SWNTPA, SWNTPP, XNEWA, XNEWP, IGSEED, ILSEED):
    if NUMBER == 1:
        NUMINQ, MFA, IPOINT, JHOUR = hour(
            ATRIB, CLOCK, MFA, JSTEP, JFREQ, NUMINQ, IPOINT, EVNTS, MXPLHR, PROBG, RATING, DERATE, PLNDST, CAPOWN, CAPCON, PROBL,
            JENT, INTCH, MXCRIT, JCRIT, NFCST, HRLOAD, FCTERR, LSFLG, LOLGHA, LOLGPA, LOLGHP, LOLGPP, LOLTHA, LOLTHP, LOLTPA, LOLTPP,
            MGNGHA, MGNGPA, MGNGHP, MGNGPP, MGNTHA, MGNTHP, MGNTPA, MGNTPP, LINENO, LP, LT, BB, ZB, BLP0, BLPA, IOI, BN, NR, NLS,
            IGSEED, ILSEED)
    if NUMBER == 2:
        IPOINT, MFA, NUMINQ = week(
            CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT)
    if NUMBER == 3:
        IQ, IPOINT, MFA, NUMINQ, r = quartr(
            IQ, RATES, CLOCK, ATRIB, NHRSYR, MFA, NUMINQ, IPOINT, EVNTS)
        for u in range(len(r)):
            RATING[u] = r[u]
    if NUMBER == 4:
        IPOINT, MFA, NUMINQ, SSQ, XLAST, RFLAG, INTVT, ITAB = year(
            ATRIB, CLOCK, CVTEST, DPLOLE, EUES, EVNTS, FINISH, HLOLE, IPOINT, MFA, NUMINQ, RFLAG, LSFLG, NAMA, SSQ, SUSTAT, XLAST, BB,
            LT, ZB, INTV, INTVT, IOJ, KVLOC, KVSTAT, KVTYPE, KVWHEN, KWHERE, LSTEP, NFCST, NORR, INDX, ITAB, LOLGHA, LOLGHP, LOLGPA,
            LOLGPP, LOLTHA, LOLTHP, LOLTPA, LOLTPP, MGNGHA, MGNGHP, MGNGPA, MGNGPP, MGNTHA, MGNTHP, MGNTPA, MGNTPP, SGNGHA, SGNGHP,
            SGNGPA, SGNGPP, SGNSHA, SGNSHP, SGNSPA, SGNSPP, SGNTHA, SGNTHP, SGNTPA, SGNTPP, SOLGHA, SOLGHP, SOLGPA, SOLGPP, SOLSHA,
            SOLSHP, SOLSPA, SOLSPP, SOLTHA, SOLTHP, SOLTPA, SOLTPP, SWLGHA, SWLGHP, SWLGPA, SWLGPP, SWLSHA, SWLSHP, SWLSPA, SWLSPP,
            SWLTHA, SWLTHP, SWLTPA, SWLTPP, SWNGHA, SWNGHP, SWNGPA, SWNGPP, SWNSHA, SWNSHP, SWNSPA, SWNSPP, SWNTHA, SWNTHP, SWNTPA,
            SWNTPP, XNEWA, XNEWP)
    return RFLAG, IPOINT, MFA, NUMINQ, SSQ, XLAST, INTVT, ITAB, IQ, JHOUR


def contrl(
    RFLAG, CLOCK, NUMINQ, IPOINT, EVNTS, ATRIB, FINISH, ITAB, INDX, SUSTAT, DPLOLE, EUES, HLOLE, LSTEP, NAMA, NFCST, PLNDST, JHOUR,
    JPLOUT, IQ, RATES, NHRSYR, JSTEP, JFREQ, MXPLHR, PROBG, RATING, DERATE, CAPOWN, CAPCON, PROBL, JENT, INTCH, MXCRIT, JCRIT, HRLOAD,
    FCTERR, LSFLG, LINENO, LP, LT, BB, ZB, BLP0, BLPA, IOI, BN, NR, NLS, CVTEST, SSQ, NORR, XLAST, INTV, INTVT, IOJ, KVLOC, KVSTAT,
    KVTYPE, KVWHEN, KWHERE, LOLGHA, LOLGPA, LOLGHP, LOLGPP, LOLTHA, LOLTHP, LOLTPA, LOLTPP, MGNGHA, MGNGPA, MGNGHP, MGNGPP, MGNTHA,
    MGNTHP, MGNTPA, MGNTPP, SGNGHA, SGNGHP, SGNGPA, SGNGPP, SGNSHA, SGNSHP, SGNSPA, SGNSPP, SGNTHA, SGNTHP, SGNTPA, SGNTPP, SOLGHA,
    SOLGHP, SOLGPA, SOLGPP, SOLSHA, SOLSHP, SOLSPA, SOLSPP, SOLTHA, SOLTHP, SOLTPA, SOLTPP, SWLGHA, SWLGHP, SWLGPA, SWLGPP, SWLSHA,
    SWLSHP, SWLSPA, SWLSPP, SWLTHA, SWLTHP, SWLTPA, SWLTPP, SWNGHA, SWNGHP, SWNGPA, SWNGPP, SWNSHA, SWNSHP, SWNSPA, SWNSPP, SWNTHA,
    SWNTHP, SWNTPA, SWNTPP, XNEWA, XNEWP, IGSEED, ILSEED):
    while True:
        if IPOINT == -1:
            return
        if CLOCK > EVNTS[IPOINT + 1]:
            return
        if RFLAG == 1:
            return
        if EVNTS[IPOINT + 1] > FINISH + 1:
            IYEAR = CLOCK // 8760
            ITAB = report(
                IYEAR, ITAB, INDX, SUSTAT, DPLOLE, EUES, HLOLE, LSTEP, NAMA, NFCST, SGNGHA, SGNGHP, SGNGPA, SGNGPP, SGNSHA, SGNSHP,
                SGNSPA, SGNSPP, SGNTHA, SGNTHP, SGNTPA, SGNTPP, SOLGHA, SOLGHP, SOLGPA, SOLGPP, SOLSHA, SOLSHP, SOLSPA, SOLSPP,
                SOLTHA, SOLTHP, SOLTPA, SOLTPP, SWLGHA, SWLGHP, SWLGPA, SWLGPP, SWLSHA, SWLSHP, SWLSPA, SWLSPP, SWLTHA, SWLTHP,
                SWLTPA, SWLTPP, SWNGHA, SWNGHP, SWNGPA, SWNGPP, SWNSHA, SWNSHP, SWNSPA, SWNSPP, SWNTHA, SWNTHP, SWNTPA, SWNTPP, XNEWA,
                XNEWP)
            return
        MFA, NUMINQ, IPOINT = remove(NUMINQ, ATRIB, EVNTS, IPOINT)
        CLOCK = ATRIB[0]
        NUMBER = int(ATRIB[1])
        RFLAG, IPOINT, MFA, NUMINQ, SSQ, XLAST, INTVT, ITAB, IQ, JHOUR = events(
            NUMBER, RFLAG, CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT, IQ, RATES, NHRSYR, JSTEP, JFREQ, MXPLHR,
            PROBG, RATING, DERATE, CAPOWN, CAPCON, PROBL, JENT, INTCH, MXCRIT, JCRIT, NFCST, HRLOAD, FCTERR, LSFLG, LOLGHA, LOLGPA,
            LOLGHP, LOLGPP, LOLTHA, LOLTHP, LOLTPA, LOLTPP, MGNGHA, MGNGPA, MGNGHP, MGNGPP, MGNTHA, MGNTHP, MGNTPA, MGNTPP, LINENO,
            LP, LT, BB, ZB, BLP0, BLPA, IOI, BN, NR, NLS, CVTEST, DPLOLE, EUES, FINISH, HLOLE, NAMA, SSQ, SUSTAT, XLAST, INTV, INTVT,
            IOJ, KVLOC, KVSTAT, KVTYPE, KVWHEN, KWHERE, LSTEP, NORR, INDX, ITAB, SGNGHA, SGNGHP, SGNGPA, SGNGPP, SGNSHA, SGNSHP,
            SGNSPA, SGNSPP, SGNTHA, SGNTHP, SGNTPA, SGNTPP, SOLGHA, SOLGHP, SOLGPA, SOLGPP, SOLSHA, SOLSHP, SOLSPA, SOLSPP, SOLTHA,
            SOLTHP, SOLTPA, SOLTPP, SWLGHA, SWLGHP, SWLGPA, SWLGPP, SWLSHA, SWLSHP, SWLSPA, SWLSPP, SWLTHA, SWLTHP, SWLTPA, SWLTPP,
            SWNGHA, SWNGHP, SWNGPA, SWNGPP, SWNSHA, SWNSHP, SWNSPA, SWNSPP, SWNTHA, SWNTHP, SWNTPA, SWNTPP, XNEWA, XNEWP, IGSEED,
            ILSEED)


def dataf1(
    filepaths):
    return 0


def narpMain(TEST_DIR):
    MFA, IPOINT, EVNTS = initfl()
    (
        QTR, NORR, NFCST, NOAREA, PKLOAD, FU, MINRAN, MAXRAN, INHBT1, INHBT2, BN, SUSTAT, FCTERR, CAPCON, CAPOWN, NOGEN, PROBG,
        DERATE, JENT, INTCH, INTCHR, LP, LINENO, PROBL, BLPA, MXCRIT, JCRIT, RATES, ID, HRLOAD, MAXHR, DYLOAD, MAXDAY, WPEAK,
        MXPLHR, JPLOUT, ITAB, NLS, IOI, IOJ, KVLOC, KVSTAT, KVTYPE, KVWHEN, KWHERE, CVTEST, MAXEUE, JSTEP, JFREQ, FINISH, INTV,
        INTVT, NR, NAMA
    ) = dataf1([Path(TEST_DIR), Path(TEST_DIR, "LEEI")])
    n = HRLOAD.shape[0]
    NUNITS = PROBG.shape[0]
    NLINES = LP.shape[0]
    LSTEP = 1
    if int(MAXEUE // 20) > 1:
        LSTEP = int(MAXEUE // 20)
    IGSEED, ILSEED = seeder(123456, NUNITS, NLINES)
    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS, QTR)
    INDX = 0
    if JSTEP == 24:
        INDX = 1
    contrl(
        0, CLOCK, NUMINQ, IPOINT, EVNTS, ATRIB, FINISH, ITAB, INDX, SUSTAT, np.zeros((n, 22)), np.zeros((n, 22)), np.zeros((n, 22)),
        LSTEP, NAMA, NFCST, np.zeros(NUNITS), 0, JPLOUT, 0, RATES, 8760, JSTEP, JFREQ, MXPLHR, PROBG, np.zeros(NUNITS), DERATE,
        CAPOWN, CAPCON, PROBL, JENT, INTCH, MXCRIT, JCRIT, HRLOAD, FCTERR, np.zeros(n), LINENO, LP, np.zeros(n, dtype=int),
        np.zeros((n, n)), np.zeros((n, n)), np.zeros(NLINES), BLPA, IOI, BN, NR, NLS, CVTEST, 0.0, NORR, 0.0, INTV, INTVT, IOJ, KVLOC,
        KVSTAT, KVTYPE, KVWHEN, KWHERE, np.zeros((n, 5)), np.zeros((n, 5)), np.zeros(5), np.zeros(5), np.zeros((n, 5)), np.zeros(5),
        np.zeros((n, 5)), np.zeros(5), np.zeros((n, 5)), np.zeros((n, 5)), np.zeros(5), np.zeros(5), np.zeros((n, 5)), np.zeros(5),
        np.zeros((n, 5)), np.zeros(5), np.zeros((n, 5)), np.zeros(5), np.zeros((n, 5)), np.zeros(5), np.zeros((n, 5)), np.zeros(5),
        np.zeros((n, 5)), np.zeros(5), np.zeros((n, 5)), np.zeros(5), np.zeros((n, 5)), np.zeros(5), np.zeros((n, 5)), np.zeros(5),
        np.zeros((n, 5)), np.zeros(5), np.zeros((n, 5)), np.zeros(5), np.zeros((n, 5)), np.zeros(5), np.zeros((n, 5)), np.zeros(5),
        np.zeros((n, 5)), np.zeros(5), np.zeros(n), np.zeros(()), np.zeros(n), np.zeros(()), np.zeros(n), np.zeros(()), np.zeros(n),
        np.zeros(()), np.zeros(n), np.zeros(()), np.zeros(n), np.zeros(()), np.zeros(n), np.zeros(()), np.zeros(n), np.zeros(()),
        np.zeros(n), np.zeros(()), np.zeros(n), np.zeros(()), np.zeros(n), np.zeros(()), np.zeros(n), np.zeros(()), np.zeros((n, 3)),
        np.zeros(3), IGSEED, ILSEED)


def intm(
    ATRIB, CLOCK, IPOINT, XLAST, SSQ, MFA, NUMINQ, ITAB, INTVT, EVNTS, IGSEED, ILSEED, LT, BB, ZB, SOLTHA, SOLGHA, SOLSHA,
    SGNTHA, SGNGHA, SGNSHA, SOLTPA, SOLGPA, SOLSPA, SGNTPA, SGNGPA, SGNSPA, SWLSHA, SWLGHA, SWLTHA, SWNSHA, SWNGHA, SWNTHA,
    SWLSPA, SWLGPA, SWLTPA, SWNSPA, SWNGPA, SWNTPA, SOLTHP, SOLGHP, SOLSHP, SGNTHP, SGNGHP, SGNSHP, SOLTPP, SOLGPP, SOLSPP,
    SGNTPP, SGNGPP, SGNSPP, HLOLE, DPLOLE, EUES, XNEWA, XNEWP, WOLSHA, LSFLG):
    snapshot = {}
    snapshot["ATRIB"] = ATRIB[1]
    snapshot["CLOCK"] = CLOCK
    snapshot["IPOINT"] = IPOINT
    snapshot["XLAST"] = XLAST
    snapshot["SSQ"] = SSQ
    snapshot["MFA"] = MFA
    snapshot["NUMINQ"] = NUMINQ
    snapshot["ITAB"] = ITAB
    snapshot["INTVT"] = INTVT
    snapshot["EVNTS"] = EVNTS
    snapshot["IGSEED"] = IGSEED
    snapshot["ILSEED"] = ILSEED
    snapshot["LT"] = LT
    snapshot["BB"] = BB
    snapshot["ZB"] = ZB
    snapshot["SOLTHA"] = SOLTHA
    snapshot["SOLGHA"] = SOLGHA
    snapshot["SOLSHA"] = SOLSHA
    snapshot["SGNTHA"] = SGNTHA
    snapshot["SGNGHA"] = SGNGHA
    snapshot["SGNSHA"] = SGNSHA
    snapshot["SOLTPA"] = SOLTPA
    snapshot["SOLGPA"] = SOLGPA
    snapshot["SOLSPA"] = SOLSPA
    snapshot["SGNTPA"] = SGNTPA
    snapshot["SGNGPA"] = SGNGPA
    snapshot["SGNSPA"] = SGNSPA
    snapshot["SWLSHA"] = SWLSHA
    snapshot["SWLGHA"] = SWLGHA
    snapshot["SWLTHA"] = SWLTHA
    snapshot["SWNSHA"] = SWNSHA
    snapshot["SWNGHA"] = SWNGHA
    snapshot["SWNTHA"] = SWNTHA
    snapshot["SWLSPA"] = SWLSPA
    snapshot["SWLGPA"] = SWLGPA
    snapshot["SWLTPA"] = SWLTPA
    snapshot["SWNSPA"] = SWNSPA
    snapshot["SWNGPA"] = SWNGPA
    snapshot["SWNTPA"] = SWNTPA
    snapshot["SOLTHP"] = SOLTHP
    snapshot["SOLGHP"] = SOLGHP
    snapshot["SOLSHP"] = SOLSHP
    snapshot["SGNTHP"] = SGNTHP
    snapshot["SGNGHP"] = SGNGHP
    snapshot["SGNSHP"] = SGNSHP
    snapshot["SOLTPP"] = SOLTPP
    snapshot["SOLGPP"] = SOLGPP
    snapshot["SOLSPP"] = SOLSPP
    snapshot["SGNTPP"] = SGNTPP
    snapshot["SGNGPP"] = SGNGPP
    snapshot["SGNSPP"] = SGNSPP
    snapshot["HLOLE"] = HLOLE
    snapshot["DPLOLE"] = DPLOLE
    snapshot["EUES"] = EUES
    snapshot["XNEWA"] = XNEWA
    snapshot["XNEWP"] = XNEWP
    snapshot["WOLSHA"] = WOLSHA
    snapshot["LSFLG"] = LSFLG
    with open("DUMP.pkl", "wb") as f:
        pickle.dump(snapshot, f)
