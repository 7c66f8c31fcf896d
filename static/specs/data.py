"""Reference definitions of the input decoding.  Read by the analysis, never executed."""
import os

import numpy as np
import pandas as pd

from kernels import dpeak, plhr, resca, wpeakf, xporta, xports


def datax(inputB_dict):
    mc, ld, ud, td, fc, od = (inputB_dict['ZZMC'], inputB_dict['ZZLD'], inputB_dict['ZZUD'], inputB_dict['ZZTD'],
                              inputB_dict['ZZFC'], inputB_dict['ZZOD'])
    na = len(ld['RATES'])
    nu = len(ud['SNRI'])
    nl = len(td['SNRI'])
    nc = len(fc['SNRI'])
    # season ends, in hours, half an hour after the last one
    QTR = np.zeros(3)
    QTR[0] = 168 * mc['IW1'] + 0.5
    QTR[1] = 168 * mc['IW2'] + 0.5
    QTR[2] = 168 * mc['IW3'] + 0.5
    # areas
    PKLOAD, FU = np.zeros(na), np.zeros(na)
    MINRAN, MAXRAN, INHBT1, INHBT2 = np.zeros(na, dtype=int), np.zeros(na, dtype=int), np.zeros(na, dtype=int), np.zeros(na, dtype=int)
    BN, SUSTAT, FCTERR = np.zeros((na, 5)), np.zeros((na + 1, 6)), np.zeros((na, 5))
    certain = True
    for j in range(na):
        peak, lfu, flows = ld['RATES'][j, 0], ld['RATES'][j, 1], ld['RATES'][j, 2]
        PKLOAD[j] = peak
        FU[j] = lfu
        if lfu != 0:
            certain = False
        MINRAN[j] = ld['ID'][j, 0] - 1
        MAXRAN[j] = ld['ID'][j, 1] - 1
        INHBT1[j] = ld['ID'][j, 2] - 1
        INHBT2[j] = ld['ID'][j, 3] - 1
        BN[j, 0] = j
        BN[j, 3] = flows
        BN[j, 4] = flows
        SUSTAT[j, 0] = peak
        for k in range(5):
            if k == 0:
                dev = 2.5
            elif k == 1:
                dev = 1.0
            elif k == 2:
                dev = 0.0
            elif k == 3:
                dev = -1.0
            else:
                dev = -2.5
            FCTERR[j, k] = 1 + dev * lfu / 100
    NORR, NFCST = 2, 5
    if certain:
        NORR, NFCST = 0, 1
    # units
    CAPCON, PROBG, DERATE, ID = np.zeros(nu, dtype=int), np.zeros((nu, 2)), np.zeros(nu), np.zeros((nu, 8), dtype=int)
    CAPOWN = np.zeros((na, nu))
    NOGEN = np.zeros(max(ud['NAR']) + 1, dtype=int)
    for u in range(nu):
        NOGEN[ud['NAR'][u]] += 1
        dfor, out = ud['HRLOAD'][4, u], ud['HRLOAD'][5, u]
        PROBG[u, 0] = 1 - dfor - out
        PROBG[u, 1] = 1 - out
        DERATE[u] = 1 - ud['HRLOAD'][6, u] / 100
        CAPCON[ud['NAT'][u]] = ud['NAR'][u]
        CAPOWN[ud['NAR'][u], ud['NAT'][u]] = 1
        ID[u, 0] = ud['NAT'][u]
        ID[u, 1] = ud['NAT'][u]
        ID[u, 2] = ud['NAR'][u]
        ID[u, 3] = ud['ID'][u, 1] - 1
        ID[u, 4] = ud['ID'][u, 2]
        ID[u, 5] = ud['ID'][u, 3] - 1
        ID[u, 6] = ud['ID'][u, 4]
        ID[u, 7] = ud['ID'][u, 0]
    for k in range(len(od['SNRI'])):
        for j in range(na):
            CAPOWN[j, od['NAT'][k]] = od['PERCENT'][k, j] / 100
    # contracts: one row per pair of areas, of the pair's first contract
    JENT = np.full((na, na), -1)
    INTCH, INTCHR = np.zeros((60, 365)), np.zeros((60, 2))
    for c in range(nc):
        a, b = fc['NAR'][c], fc['NAE'][c]
        if JENT[a, b] == -1:
            JENT[a, b] = c
            INTCHR[c, 0] = a
            INTCHR[c, 1] = b
        for d in range(365):
            if d >= fc['BEG DAY'][c] - 1 and d < fc['END DAY'][c]:
                INTCH[JENT[a, b], d] += fc['MW'][c]
    # lines
    LP, LINENO = np.full((nl, 3), -1), np.full((na, na), -1)
    BLPA, PROBL = np.zeros((nl, 18)), np.zeros((6, nl))
    for i in range(nl):
        LP[i, 0] = td['LineID'][i]
        LP[i, 1] = td['NAR'][i]
        LP[i, 2] = td['NAE'][i]
        LINENO[td['NAR'][i], td['NAE'][i]] = td['LineID'][i]
        for s in range(6):
            adm, cap, capr = td['ADM'][i, s], td['CAP'][i, s], td['CAPR'][i, s]
            if adm == 0:
                adm = -0.5
            if cap == 0:
                cap = 1
            if capr == 0:
                capr = 1
            BLPA[i, 3 * s] = adm
            BLPA[i, 3 * s + 1] = cap
            BLPA[i, 3 * s + 2] = capr
            p = 0
            for t in range(s + 1):
                p += td['PROBT'][i, t]
            PROBL[s, i] = p
    return (QTR, NORR, NFCST, na, PKLOAD, FU, MINRAN, MAXRAN, INHBT1, INHBT2, BN, SUSTAT, FCTERR, CAPCON, CAPOWN, NOGEN, PROBG,
            DERATE, JENT, INTCH, INTCHR, LP, LINENO, PROBL, BLPA, 0, np.zeros(0), ID, mc['NLS'], mc['IOI'], mc['IOJ'],
            mc['KVLOC'] - 1, mc['KVSTAT'], mc['KVTYPE'], mc['KVWHEN'], mc['KWHERE'], mc['CVTEST'], mc['MAXEUE'],
            int(mc['JSTEP']), int(mc['JFREQ']), mc['FINISH'] * 8760.0, mc['INTV'], mc['INTV'])


def place(names, x):
    """row of the list of names"""
    r = -1
    for i in range(len(names)):
        if names[i] == x:
            r = i
    return r


def places(names, col):
    return np.array([place(names, x) for x in col])


def xldnew(FileNameAndPath, PKLOAD):
    """a header names the area, every other line gives its next twelve hours"""
    with open(FileNameAndPath, 'r') as f:
        lines = f.readlines()
    n = len(PKLOAD)
    raw = np.zeros((n, 8760))
    for i in range(len(lines)):
        if lines[i][:4] != "AREA":
            head = -1
            for k in range(i):
                if lines[k][:4] == "AREA":
                    head = k
            area = int(lines[head][6:]) - 1
            numbers = np.array(list(map(float, lines[i].strip().split())))
            hours = numbers[-12:]
            for a in range(n):
                for h in range(8760):
                    if a == area and h // 12 == i - head - 1:
                        raw[a, h] = hours[h % 12]
    out = np.zeros((n, 8760))
    for a in range(n):
        top = max(raw[a, :].max(), 0.001)
        for h in range(8760):
            out[a, h] = raw[a, h] / top * PKLOAD[a]
    return out


def pmsc(IA, ID, ITAB, RATES, PROBG, DERATE, PKLOAD, WPEAK, IREPM, MINRAN, MAXRAN, INHBT1, INHBT2, NAMU, NUMP):
    pass


def smaint(NOAREA, ID, ITAB, RATES, PROBG, DERATE, PKLOAD, WPEAK, IREPM, MINRAN, MAXRAN, INHBT1, INHBT2, NAMU, NUMP):
    for a in range(NOAREA):
        ITAB = pmsc(a, ID, ITAB, RATES, PROBG, DERATE, PKLOAD, WPEAK, IREPM, MINRAN, MAXRAN, INHBT1, INHBT2, NAMU, NUMP)
    n = ID.shape[0]
    JPLOUT = np.full((52, n + 1), -1)
    for w in range(52):
        JPLOUT[w, 0] = 0
    for u in range(n):
        for k in range(2):
            first = ID[u, 3 + 2 * k]
            before = JPLOUT.copy()
            for w in range(52):
                for c in range(n + 1):
                    if first != -1 and w >= first and w < first + ID[u, 4 + 2 * k]:
                        if c == 0:
                            JPLOUT[w, c] = before[w, 0] + 1
                        elif c == before[w, 0] + 1:
                            JPLOUT[w, c] = ID[u, 0]
    return JPLOUT, ITAB


def cards(folder):
    """the input cards: columns as they are, names as rows of the lists of areas and units"""
    mc = pd.read_csv(os.path.join(folder, 'ZZMC.csv'))
    B = {'ZZMC': {'NLS': mc['LS'].item(), 'IW1': mc['END WK1'].item(), 'IW2': mc['END WK2'].item(), 'IW3': mc['END WK3'].item(),
                  'KWHERE': mc['WHERE'].item(), 'KVWHEN': mc['WHEN'].item(), 'KVSTAT': mc['KVS'].item(), 'KVTYPE': mc['KVT'].item(),
                  'KVLOC': mc['KVL'].item(), 'CVTEST': mc['CVT'].item(), 'FINISH': mc['FIN'].item(), 'JSTEP': mc['STEP'].item(),
                  'JFREQ': mc['FREQ'].item(), 'MAXEUE': mc['MAXE'].item(), 'IOI': mc['II'].item(), 'IOJ': mc['IJ'].item(),
                  'INTV': mc['IN'].item(), 'IREPM': mc['M'].item()}}
    ld = pd.read_csv(os.path.join(folder, 'ZZLD.csv'))
    areas = ld['AREA NAME'].to_numpy()
    na = len(areas)
    R, I = np.zeros((na, 3)), np.zeros((na, 4), dtype=int)
    for j in range(na):
        R[j, 0] = ld['PEAK (MW)'].to_numpy()[j]
        R[j, 1] = ld['LFU'].to_numpy()[j]
        R[j, 2] = ld['SUM OF FLOWS CONSTRAINT'].to_numpy()[j]
        I[j, 0] = ld['OUTAGE BEG WK'].to_numpy()[j]
        I[j, 1] = ld['OUTAGE END WK'].to_numpy()[j]
        I[j, 2] = ld['FORBIDDEN BEG WK'].to_numpy()[j]
        I[j, 3] = ld['FORBIDDEN END WK'].to_numpy()[j]
    B['ZZLD'] = {'RATES': R, 'ID': I, 'names': areas}
    ud = pd.read_csv(os.path.join(folder, 'ZZUD.csv'))
    units = ud['NAME'].to_numpy()
    nu = len(units)
    R, I = np.zeros((7, nu)), np.zeros((nu, 5), dtype=int)
    for u in range(nu):
        R[0, u] = ud['CAP1'].to_numpy()[u]
        R[1, u] = ud['CAP2'].to_numpy()[u]
        R[2, u] = ud['CAP3'].to_numpy()[u]
        R[3, u] = ud['CAP4'].to_numpy()[u]
        R[4, u] = ud['DFOR'].to_numpy()[u]
        R[5, u] = ud['FOR'].to_numpy()[u]
        R[6, u] = ud['DER'].to_numpy()[u]
        I[u, 0] = ud['P/A'].to_numpy()[u]
        I[u, 1] = ud['B1'].to_numpy()[u]
        I[u, 2] = ud['D1'].to_numpy()[u]
        I[u, 3] = ud['B2'].to_numpy()[u]
        I[u, 4] = ud['D2'].to_numpy()[u]
    B['ZZUD'] = {'SNRI': units, 'HRLOAD': R, 'ID': I, 'NAT': places(units, units), 'NAR': places(areas, ud['LOC'].to_numpy()), 'names': units}
    td = pd.read_csv(os.path.join(folder, 'ZZTD.csv'))
    texts = td['META DATA'].to_numpy()
    nl = len(texts)
    A, C, CR, P = np.zeros((nl, 6)), np.zeros((nl, 6)), np.zeros((nl, 6)), np.zeros((nl, 6))
    for i in range(nl):
        m = np.array(list(map(float, texts[i].strip().split(',')))).reshape((6, 4))
        for s in range(6):
            A[i, s] = m[s, 0]
            C[i, s] = m[s, 1]
            CR[i, s] = m[s, 2]
            P[i, s] = m[s, 3]
    B['ZZTD'] = {'SNRI': texts, 'LineID': td['LINE NUMBER'].to_numpy() - 1, 'NAR': places(areas, td['FROM AREA'].to_numpy()),
                 'NAE': places(areas, td['TO AREA'].to_numpy()), 'ADM': A, 'CAP': C, 'CAPR': CR, 'PROBT': P}
    fc = pd.read_csv(os.path.join(folder, 'ZZFC.csv'))
    B['ZZFC'] = {'SNRI': fc['SN'].to_numpy(), 'NAR': places(areas, fc['FROM AREA'].to_numpy()), 'NAE': places(areas, fc['TO AREA'].to_numpy()),
                 'BEG DAY': fc['BEG DAY'].to_numpy(), 'END DAY': fc['END DAY'].to_numpy(), 'MW': fc['MW'].to_numpy()}
    od = pd.read_csv(os.path.join(folder, 'ZZOD.csv'))
    B['ZZOD'] = {'SNRI': od['SN'].to_numpy(), 'NAT': places(units, od['UNIT NAME'].to_numpy()),
                 'PERCENT': np.array([list(map(float, str(x).split(','))) for x in od['PERCENT OWNED BY AREA'].to_numpy()])}
    return B


def dataf1(filepaths):
    B = cards(filepaths[0])
    (QTR, NORR, NFCST, NOAREA, PKLOAD, FU, MINRAN, MAXRAN, INHBT1, INHBT2, BN, SUSTAT, FCTERR, CAPCON, CAPOWN, NOGEN, PROBG, DERATE,
     JENT, INTCH, INTCHR, LP, LINENO, PROBL, BLPA, MXCRIT, JCRIT, ID, NLS, IOI, IOJ, KVLOC, KVSTAT, KVTYPE, KVWHEN, KWHERE, CVTEST,
     MAXEUE, JSTEP, JFREQ, FINISH, INTV, INTVT) = datax(B)
    RATES = np.zeros((len(B['ZZUD']['SNRI']), 4))
    for u in range(len(RATES)):
        for q in range(4):
            RATES[u, q] = B['ZZUD']['HRLOAD'][q, u]
    HRLOAD = xldnew(filepaths[1], PKLOAD)
    # peaks are those of the loads with the contracts; the hourly simulation accounts for contracts itself
    xporta(JENT, INTCH, HRLOAD)
    MAXHR, DYLOAD, MAXDAY = dpeak(HRLOAD, 24)
    WPEAK = wpeakf(DYLOAD)
    MXPLHR = plhr(HRLOAD)
    xports(JENT, INTCH, HRLOAD)
    resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH)
    NAMU = [x[1:5] for x in B['ZZUD']['names']]
    NUMP = [x[5:-1] for x in B['ZZUD']['names']]
    JPLOUT, ITAB = smaint(NOAREA, ID, 6, RATES, PROBG, DERATE, PKLOAD, WPEAK, B['ZZMC']['IREPM'], MINRAN, MAXRAN, INHBT1, INHBT2, NAMU, NUMP)
    NAMA = [x.strip("'") + "  " for x in B['ZZLD']['names']]
    return (QTR, NORR, NFCST, NOAREA, PKLOAD, FU, MINRAN, MAXRAN, INHBT1, INHBT2, BN, SUSTAT, FCTERR, CAPCON, CAPOWN, NOGEN, PROBG, DERATE,
            JENT, INTCH, INTCHR, LP, LINENO, PROBL, BLPA, MXCRIT, JCRIT, RATES, ID, HRLOAD, MAXHR, DYLOAD, MAXDAY, WPEAK, MXPLHR,
            JPLOUT, ITAB, NLS, IOI, IOJ, KVLOC, KVSTAT, KVTYPE, KVWHEN, KWHERE, CVTEST, MAXEUE, JSTEP, JFREQ, FINISH, INTV, INTVT, 0, NAMA)



def gsm(N, KT, KP, P1, P2, P3, PA, KA):
    """one more unit in the table of outages and the probabilities that at least as much is out"""
    levels = np.zeros(5000, dtype=int)
    tails = np.zeros(5000)
    tails[0] = 1
    count = 0
    go = 1
    while go == 1 and tails[count] > 1e-09:
        here = levels[count]
        # the next larger outage of the new unit running, partly out or out, on top of what was out before
        new = 1000000
        for i in range(N):
            for more in [0, KP, KT]:
                x = KA[i] + more
                if x > here and x < new:
                    new = x
        if new == 1000000:
            go = 0
        else:
            t1 = 0
            t2 = 0
            t3 = 0
            for q in range(N):
                i = N - 1 - q
                if KA[i] >= new:
                    t1 = PA[i]
                if KA[i] + KP >= new:
                    t2 = PA[i]
                if KA[i] + KT >= new:
                    t3 = PA[i]
            count += 1
            levels[count] = new
            tails[count] = P1 * t1 + P2 * t2 + P3 * t3
    for i in range(5000):
        if i <= count:
            KA[i] = levels[i]
            PA[i] = tails[i]
    PA[count + 1] = 0
    return count + 1


def pmlolp(CAPLOS, RD, NGU):
    """outage table of a set of units; capacities on a grid of ten megawatts"""
    KA = np.zeros(5000)
    PA = np.zeros(5000)
    PA[0] = 1
    n = 1
    for i in range(NGU):
        out = (int(CAPLOS[i] + 5.5) // 10) * 10
        part = (int(out * RD[i, 2] + 5.5) // 10) * 10
        up = 1 - RD[i, 0] - RD[i, 1]
        if up > 1e-06:
            n = gsm(n, out, part, up, RD[i, 0], RD[i, 1], PA, KA)
    return n, KA, PA
