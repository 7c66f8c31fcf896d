"""Reference definitions: the matrix work of the optimisation (factors, inverse, prices, columns)."""
import numpy as np


def prices(M, CB, TAB):
    """simplex multipliers: the costs of the basis times the basis inverse"""
    out = np.zeros(M)
    for j in range(M):
        for i in range(M):
            out[j] += CB[i] * TAB[i, j]
    return out


def priced(M, PY, A, IND):
    """the value of a column at the multipliers"""
    s = 0.0
    for i in range(M):
        s += PY[i] * A[i, IND]
    return s


def column(M, IN, TAB, A):
    """a column in terms of the basis"""
    out = np.zeros(M)
    for i in range(M):
        for j in range(M):
            out[i] += TAB[i, j] * A[j, IN]
    return out


def factors(A, N):
    """Gaussian elimination with the largest element of the column as pivot; multipliers are kept below"""
    PIV = np.zeros(N, dtype=int)
    bad = 0
    for k in range(N - 1):
        p = k
        for i in range(k + 1, N):
            if abs(A[i, k]) > abs(A[p, k]):
                p = i
        PIV[k] = p
        if A[p, k] == 0.0:
            bad = k
            continue
        for j in range(k, N):
            t = A[p, j]
            A[p, j] = A[k, j]
            A[k, j] = t
        for i in range(k + 1, N):
            A[i, k] = -A[i, k] / A[k, k]
            for j in range(k + 1, N):
                A[i, j] += A[i, k] * A[k, j]
    PIV[N - 1] = N - 1
    if A[N - 1, N - 1] == 0.0:
        bad = N - 1
    return bad, PIV


def pivots(A, N):
    bad, PIV = factors(A, N)
    return PIV


def inverse(A, N, IPVT):
    """column c of the inverse solves L U x = P e_c with the kept factors and pivots"""
    F = A.copy()
    for c in range(N):
        b = np.zeros(N)
        b[c] = 1.0
        for k in range(N - 1):
            p = IPVT[k]
            t = b[p]
            b[p] = b[k]
            b[k] = t
            for i in range(k + 1, N):
                b[i] += F[i, k] * t
        for m in range(N):
            k = N - 1 - m
            s = b[k]
            for j in range(k + 1, N):
                s -= F[k, j] * b[j]
            b[k] = s / F[k, k]
        for i in range(N):
            A[i, c] = b[i]


def rm(M, CB, TAB):
    return prices(M, CB, TAB)


def rc(M, PY, A, IND):
    return priced(M, PY, A, IND)


def mc(M, IN, TAB, A):
    return column(M, IN, TAB, A)


def dgeco(A, N):
    return pivots(A, N)


def dgedi(A, N, IPVT):
    inverse(A, N, IPVT)


def optimum(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
    """two-phase revised simplex: first drive the artificial columns out of the basis, then minimise the costs"""
    START = BS[:M].copy()
    INV = np.identity(M)
    XOB[:N] = XOBI[0, :N]
    used = np.zeros(N, dtype=int)
    cost = np.zeros(M)
    for i in range(M):
        used[IBAS[i]] = 1
        cost[i] = XOB[IBAS[i]]
    phase = 1
    fresh = 0
    while True:
        PY = rm(M, cost, INV)
        while True:
            # the column with the most negative reduced cost enters
            enter = -1
            least = 0.0
            for j in range(N1):
                if used[j] != 1:
                    d = XOB[j] - rc(M, PY, A, j)
                    if abs(d) < 1e-7:
                        d = 0.0
                    if abs(d - least) >= 1e-7 and d < least:
                        least = d
                        enter = j
            if enter >= 0 or fresh == 1:
                break
            # apparently optimal: the basis is inverted afresh, and priced again
            B = np.zeros((M, M))
            for i in range(M):
                for j in range(M):
                    B[i, j] = A[i, IBAS[j]]
            PIV = dgeco(B, M)
            dgedi(B, M, PIV)
            for i in range(M):
                BS[i] = 0.0
                for j in range(M):
                    BS[i] += B[i, j] * START[j]
            INV = B.copy()
            PY = rm(M, cost, B)
            fresh = 1
        if enter >= 0:
            fresh = 0
            P = mc(M, enter, INV, A)
            # the row with the smallest ratio leaves; in the first phase an artificial column at zero goes first
            leave = -1
            ratio = 0.0
            for i in range(M):
                if P[i] > 1e-7:
                    r = (BS[i] if abs(BS[i]) >= 1e-13 else 0.0) / P[i]
                    if leave == -1 or r < ratio:
                        leave = i
                        ratio = r
                    elif phase == 1 and BS[i] == 0 and XOB[IBAS[i]] == 1:
                        leave = i
            if leave == -1:
                raise ValueError("unbounded")
            for i in range(M):
                if i != leave:
                    for j in range(M):
                        INV[i, j] -= INV[leave, j] * P[i] / P[leave]
                    BS[i] -= BS[leave] * P[i] / P[leave]
            for j in range(M):
                INV[leave, j] /= P[leave]
            BS[leave] /= P[leave]
            cost[leave] = XOB[enter]
            used[IBAS[leave]] = 0
            used[enter] = 1
            IBAS[leave] = enter
        elif phase == 2:
            break
        else:
            XOB[:N1] = XOBI[1, :N1]
            for i in range(M):
                cost[i] = XOB[IBAS[i]]
            phase = 2
    return N1, INV
