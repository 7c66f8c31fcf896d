"""Reference definitions of the network analysis.  Read by the analysis, never executed."""
import numpy as np
from kernels import admitb, admitm, admitr, admref, assign, flo, net, theta, thetac, tm1, ximpa, ximpar


def transm(IFLAG, JFLAG, CLOCK, JHOUR, IOI, BN, BLPA, BLP0, BB, LT, ZB, LP, NR, STMULT, LNSTAT, NLS, TRNSFR, TRNSFJ, SYSCON, CAPREQ,
           PLNDST, PCTAVL):
    n = BN.shape[0]
    m = LNSTAT.shape[0]
    # the undisturbed network: every line in its first state
    if IFLAG == 0:
        first = np.zeros((m, 3))
        for i in range(m):
            for c in range(3):
                first[i, c] = BLPA[i, c]
        b0, bb, lt, zb = tm1(BN, LP, first, NR)
        BLP0[:] = b0
        BB[:, :] = bb
        LT[:] = lt
        ZB[:, :] = zb
    # the lines in their present state
    BLP = np.zeros((m, 3))
    for i in range(m):
        s = 3 * (LNSTAT[i] - 1)
        BLP[i, 0] = BLPA[i, s]
        BLP[i, 1] = BLPA[i, s + 1] * STMULT[i, 0]
        BLP[i, 2] = BLPA[i, s + 2] * STMULT[i, 1]
    BNS = np.zeros((n, 6))
    imp = BN[:, 3].copy()
    # first stage: contracts and joint ownership, as far as the area has the power
    for i in range(n):
        BN[i, 1] = 0
        BN[i, 2] = max(TRNSFR[i] + TRNSFJ[i], min(SYSCON[i] - CAPREQ[i], 0))
        BNS[i, 0] = TRNSFR[i] + TRNSFJ[i]
        BNS[i, 4] = SYSCON[i]
        BNS[i, 5] = CAPREQ[i]
    FLOW, INDIC = tm2(BN, LP, BLP, BLP0, BB, ZB, LT, NR, 1, BNS, CLOCK, JHOUR, IOI, 0, PLNDST, PCTAVL)
    adj = np.zeros(n)
    short = 0
    for i in range(n):
        adj[i] = SYSCON[i] - CAPREQ[i] - BN[i, 1]
        if adj[i] < 0:
            short += 1
    if short == 0:
        return 0, FLOW, adj
    # second stage
    c = np.zeros(n)
    for i in range(n):
        c[i] = BN[i, 1] * NLS
    for i in range(n):
        BN[i, 2] = SYSCON[i] - CAPREQ[i] - c[i]
        BN[i, 1] = CAPREQ[i]
        BNS[i, 0] = BN[i, 2]
        BNS[i, 1] = BN[i, 1]
        BNS[i, 3] = BN[i, 3]
    left = BN.copy()
    if NLS != 0:
        for i in range(m):
            BLP[i, 1] = max(BLP[i, 1] - FLOW[i], 0)
            BLP[i, 2] = max(BLP[i, 2] + FLOW[i], 0)
        for a in range(n):
            for i in range(m):
                # FLOW leaves the first area of the line and enters the second one
                if LP[i, 1] == a:
                    left[a, 3] += FLOW[i]
                    left[a, 4] -= FLOW[i]
                if LP[i, 2] == a:
                    left[a, 3] -= FLOW[i]
                    left[a, 4] += FLOW[i]
        BN[:, 3] = left[:, 3]
        BN[:, 4] = left[:, 4]
    FLOW, INDIC = tm2(BN, LP, BLP, BLP0, BB, ZB, LT, NR, NLS, BNS, CLOCK, JHOUR, IOI, 1, PLNDST, PCTAVL)
    for i in range(n):
        BN[i, 3] = imp[i]
        BN[i, 4] = imp[i]
        adj[i] = BN[i, 1] - SYSCON[i] + CAPREQ[i] + c[i]
    return 1, FLOW, adj


def tm2(BN, LP, BLP, BLP0, BB, ZB, LT, NR, NLS, BNS, LCLOCK, JHOUR, IOI, JFLAG, PLNDST, PCTAVL):
    n = BN.shape[0]
    m = LP.shape[0]
    k = n - 1
    place = np.zeros(n, dtype=int)  # of an area in the matrices; the reference area comes last
    for i in range(n):
        place[LT[i]] = i
    b0 = BB.copy()
    z0 = ZB.copy()
    load = BN[:, 1].copy()
    inj = np.zeros(n)
    for i in range(n):
        inj[i] = BN[LT[i], 2]
    # the lines that are not in their undisturbed state: the new admittance is added, the old one removed
    for i in range(m):
        if BLP[i, 0] != BLP0[i]:
            p = place[LP[i, 1]]
            q = place[LP[i, 2]]
            for y in [BLP[i, 0], -BLP0[i]]:
                if y != 0:
                    if p < k and q < k:
                        Z = ximpa(ZB, -1 / y, p, q)
                        admitm(BB, p, q, y)
                    else:
                        Z = ximpar(ZB, -1 / y, min(p, q))
                        admref(BB, min(p, q), y)
                    for a in range(k):
                        for b in range(k):
                            ZB[a, b] = Z[a, b]
    inj1, loss = assign(inj, load, LT, n, NLS)
    angles = thetac(theta(ZB, inj1), LT)
    net_flow, FLOW = flo(LP, BLP, angles)
    bad = 0
    for i in range(m):
        if FLOW[i] > BLP[i, 1] or -FLOW[i] > BLP[i, 2]:
            bad = 1
    for i in range(n):
        if net_flow[i] > BN[i, 3] or -net_flow[i] > BN[i, 4]:
            bad = 1
    if bad == 0:
        for i in range(n):
            BN[LT[i], 1] = inj1[i]
            BN[i, 2] = loss[i]
    else:
        RES = np.zeros((250, 3))
        if NLS != 0:
            M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = connls(BB, inj, BN[:, 2], k, NR, LT, BLP, LP, BN, load, NLS)
            N, TAB = linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1)
            net(B, B1, RES, IBAS, BS, M, N)
            # unknowns: 2k angles, k+1 injections left out, k+1 their complements, line flows
            for i in range(n):
                a = LT[i]
                BN[a, 1] = -RES[2 * k + i, 0]
                BN[a, 2] = max(0, BN[a, 1] - BN[a, 2])
            for i in range(m):
                FLOW[i] = RES[4 * k + 2 + i, 0]
        else:
            M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(BB, inj, k, NR, LT, BLP, LP, BN, load, NLS)
            N, TAB = linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1)
            net(B, B1, RES, IBAS, BS, M, N)
            # unknowns: 2k angles, k+1 generations and their complements, k+1 losses, k+1 injections, ..
            for i in range(n):
                a = LT[i]
                BN[a, 2] = RES[2 * k + 2 * (k + 1) + i, 0]
                BN[a, 1] = RES[2 * k + 3 * (k + 1) + i, 0] - load[a] + BN[a, 2]
            for i in range(m):
                FLOW[i] = RES[6 * (k + 1) - 2 + i, 0]
    for a in range(k):
        for b in range(k):
            BB[a, b] = b0[a, b]
            ZB[a, b] = z0[a, b]
    return FLOW, bad


def tm2_trace(BN, LP, BLP, BLP0, BB, ZB, LT, NR, NLS, BNS, LCLOCK, JHOUR, IOI, JFLAG, PLNDST, PCTAVL):
    n = BN.shape[0]
    m = LP.shape[0]
    k = n - 1
    place = np.zeros(n, dtype=int)  # of an area in the matrices; the reference area comes last
    for i in range(n):
        place[LT[i]] = i
    b0 = BB.copy()
    z0 = ZB.copy()
    load = BN[:, 1].copy()
    inj = np.zeros(n)
    for i in range(n):
        inj[i] = BN[LT[i], 2]
    # the lines that are not in their undisturbed state: the new admittance is added, the old one removed
    for i in range(m):
        if BLP[i, 0] != BLP0[i]:
            p = place[LP[i, 1]]
            q = place[LP[i, 2]]
            for y in [BLP[i, 0], -BLP0[i]]:
                if y != 0:
                    if p < k and q < k:
                        Z = ximpa(ZB, -1 / y, p, q)
                        admitm(BB, p, q, y)
                    else:
                        Z = ximpar(ZB, -1 / y, min(p, q))
                        admref(BB, min(p, q), y)
                    for a in range(k):
                        for b in range(k):
                            ZB[a, b] = Z[a, b]
    inj1, loss = assign(inj, load, LT, n, NLS)
    angles = thetac(theta(ZB, inj1), LT)
    net_flow, FLOW = flo(LP, BLP, angles)
    bad = 0
    for i in range(m):
        if FLOW[i] > BLP[i, 1] or -FLOW[i] > BLP[i, 2]:
            bad = 1
    for i in range(n):
        if net_flow[i] > BN[i, 3] or -net_flow[i] > BN[i, 4]:
            bad = 1
    if bad == 0:
        for i in range(n):
            BN[LT[i], 1] = inj1[i]
            BN[i, 2] = loss[i]
    else:
        RES = np.zeros((250, 3))
        if NLS != 0:
            M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = connls(BB, inj, BN[:, 2], k, NR, LT, BLP, LP, BN, load, NLS)
            N, TAB = linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1)
            net(B, B1, RES, IBAS, BS, M, N)
            # unknowns: 2k angles, k+1 injections left out, k+1 their complements, line flows
            for i in range(n):
                a = LT[i]
                BN[a, 1] = -RES[2 * k + i, 0]
                BN[a, 2] = max(0, BN[a, 1] - BN[a, 2])
            for i in range(m):
                FLOW[i] = RES[4 * k + 2 + i, 0]
        else:
            M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(BB, inj, k, NR, LT, BLP, LP, BN, load, NLS)
            N, TAB = linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1)
            net(B, B1, RES, IBAS, BS, M, N)
            # unknowns: 2k angles, k+1 generations and their complements, k+1 losses, k+1 injections, ..
            for i in range(n):
                a = LT[i]
                BN[a, 2] = RES[2 * k + 2 * (k + 1) + i, 0]
                BN[a, 1] = RES[2 * k + 3 * (k + 1) + i, 0] - load[a] + BN[a, 2]
            for i in range(m):
                FLOW[i] = RES[6 * (k + 1) - 2 + i, 0]
    if bad == 1 and IOI != 0:
        f = open("traout.txt", "w")
        f.write("%s %s %s" % (LCLOCK, JHOUR, JFLAG))
        number = 0
        for u in range(len(PLNDST)):
            if PLNDST[u] != 1 or PCTAVL[u] != 1:
                number += 1
        f.write("%s" % number)
        for u in range(len(PLNDST)):
            if PLNDST[u] != 1 or PCTAVL[u] == 0:
                f.write("%s" % u)
            elif PCTAVL[u] != 1:
                f.write("%s" % (-u))
        for a in range(n):
            if JFLAG != 1:
                f.write("%s %s %s %s %s" % (BN[a, 0], BNS[a, 0], BN[a, 1], BNS[a, 4], BNS[a, 5]))
            else:
                f.write("%s %s %s %s %s %s" % (BN[a, 0], BN[a, 1], BN[a, 2], BNS[a, 0], BNS[a, 1], BN[a, 3]))
        for i in range(m):
            f.write("%s %s %s %s %s %s %s" % (LP[i, 0], LP[i, 1], LP[i, 2], BLP[i, 0], BLP[i, 1], BLP[i, 2], FLOW[i]))
    for a in range(k):
        for b in range(k):
            BB[a, b] = b0[a, b]
            ZB[a, b] = z0[a, b]
    return FLOW, bad


def connls(BC, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS):
    """minimise the injections that deficit areas have to do without.
    columns: k pairs of angles (both signs), n injections x, slacks of: n bounds of x, m + m line limits, n + n area limits; n artificials
    rows: n balances, n bounds, m + m lines, n + n areas; the balances come last in the result"""
    k = NX
    n = NX + 1
    m = BLP.shape[0]
    rows = 4 * n + 2 * m
    real = 2 * k + n + n + 2 * m + 2 * n
    place = np.zeros(n, dtype=int)
    for i in range(n):
        place[LT[i]] = i
    A = np.zeros((200, 250))
    b = np.zeros(200)
    cost = np.zeros(250)
    for i in range(n):
        for j in range(k):
            if i < k:
                y = BC[i, j]
            else:
                y = 0.0
                for l in range(m):
                    if (LP[l, 1] == NR and place[LP[l, 2]] == j) or (LP[l, 2] == NR and place[LP[l, 1]] == j):
                        y -= BLP[l, 0]
            A[i, 2 * j] = y
            A[i, 2 * j + 1] = -y
            A[2 * n + 2 * m + i, 2 * j] = y
            A[2 * n + 2 * m + i, 2 * j + 1] = -y
            A[3 * n + 2 * m + i, 2 * j] = -y
            A[3 * n + 2 * m + i, 2 * j + 1] = y
        A[i, 2 * k + i] = -1
        s = INJ[i]
        if i == k:
            s = INJB[NR]
        b[i] = s
        if s <= 0:
            cost[2 * k + i] = 1
        A[n + i, 2 * k + i] = 1
        b[n + i] = abs(s)
        b[2 * n + 2 * m + i] = BN[LT[i], 4]
        b[3 * n + 2 * m + i] = BN[LT[i], 3]
    for l in range(m):
        for e in range(2):
            p = place[LP[l, 1 + e]]
            if p < k:
                y = BLP[l, 0] if e == 0 else -BLP[l, 0]
                A[2 * n + l, 2 * p] = y
                A[2 * n + l, 2 * p + 1] = -y
                A[2 * n + m + l, 2 * p] = -y
                A[2 * n + m + l, 2 * p + 1] = y
        b[2 * n + l] = BLP[l, 1]
        b[2 * n + m + l] = BLP[l, 2]
    for r in range(n, rows):
        A[r, 2 * k + r] = 1
    return finish(A, b, cost, n, rows, real)


def finish(A, b, cost, n, rows, real):
    """right-hand sides made non-negative, artificial variables, the first basis, balances last"""
    raw = np.zeros(rows)
    for r in range(rows):
        raw[r] = b[r]
    for r in range(n):
        b[r] = min(b[r], 0)
    for r in range(rows):
        if b[r] < 0:
            for c in range(real):
                A[r, c] = -A[r, c]
            b[r] = -b[r]
    phase = np.zeros((2, 250))
    for i in range(n):
        A[i, real + i] = 1
        phase[0, real + i] = 1
    for c in range(real):
        phase[1, c] = cost[c]
    basis = np.zeros(rows, dtype=int)
    for r in range(rows):
        basis[r] = real + n - rows + r
    T = np.zeros((rows, real + n))
    rhs = np.zeros(200)
    for r in range(rows):
        q = r + n if r < rows - n else r - (rows - n)
        for c in range(real + n):
            T[r, c] = A[q, c]
        rhs[r] = b[q]
    for r in range(rows):
        for c in range(real + n):
            A[r, c] = T[r, c]
    return rows, real + n, real, A, cost, phase, basis, rhs, b, raw, T


def conls(BC, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS):
    """minimise the load that is not served.
    columns: k pairs of angles, n losses x, n generations g, slacks of: n + n bounds, m + m line limits, n + n area limits; n artificials
    rows: n balances, n bounds of x, n bounds of g, m + m lines, n + n areas; the balances come last in the result"""
    k = NX
    n = NX + 1
    m = BLP.shape[0]
    rows = 5 * n + 2 * m
    real = 2 * k + 2 * n + 2 * n + 2 * m + 2 * n
    place = np.zeros(n, dtype=int)
    for i in range(n):
        place[LT[i]] = i
    A = np.zeros((200, 250))
    b = np.zeros(200)
    cost = np.zeros(250)
    for i in range(n):
        for j in range(k):
            if i < k:
                y = BC[i, j]
            else:
                y = 0.0
                for l in range(m):
                    if (LP[l, 1] == NR and place[LP[l, 2]] == j) or (LP[l, 2] == NR and place[LP[l, 1]] == j):
                        y -= BLP[l, 0]
            A[i, 2 * j] = y
            A[i, 2 * j + 1] = -y
            A[3 * n + 2 * m + i, 2 * j] = y
            A[3 * n + 2 * m + i, 2 * j + 1] = -y
            A[4 * n + 2 * m + i, 2 * j] = -y
            A[4 * n + 2 * m + i, 2 * j + 1] = y
        A[i, 2 * k + i] = -1
        A[i, 2 * k + n + i] = -1
        b[i] = -LOD[LT[i]]
        cost[2 * k + i] = 1
        A[n + i, 2 * k + i] = 1
        b[n + i] = LOD[LT[i]]
        A[2 * n + i, 2 * k + n + i] = 1
        b[2 * n + i] = LOD[LT[i]] + INJ[i]
        b[3 * n + 2 * m + i] = BN[LT[i], 4]
        b[4 * n + 2 * m + i] = BN[LT[i], 3]
    for l in range(m):
        for e in range(2):
            p = place[LP[l, 1 + e]]
            if p < k:
                y = BLP[l, 0] if e == 0 else -BLP[l, 0]
                A[3 * n + l, 2 * p] = y
                A[3 * n + l, 2 * p + 1] = -y
                A[3 * n + m + l, 2 * p] = -y
                A[3 * n + m + l, 2 * p + 1] = y
        b[3 * n + l] = BLP[l, 1]
        b[3 * n + m + l] = BLP[l, 2]
    for r in range(n, rows):
        A[r, 2 * k + n + r] = 1
    return finish(A, b, cost, n, rows, real)


def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
    return 0
