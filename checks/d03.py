"""BlasOps.tla defines every operation of the interface on raw storage (leading dimensions, triangles, packed and
banded matrices, steps of either sign), giving the whole output array. MCBlas.tla shows for all small matrices that
the column-by-column computation ends at the definition and that the three storages hold the same matrices. Each
operation runs on the real code in every number type and form, with random integer entries and padding, and TLC
computes the array that must be there afterwards; solutions of triangular systems are judged by what they solve."""
from vf.core import *
DRIVERS = [Driver("d03", "d03.cpp", lib=[], libs=["-llapack", "-lblas"])]
S = {"e": "S"}
BOTH = ["AXPY", "COPY", "SCAL", "GEMV", "GBMV", "TRMV", "TBMV", "TPMV", "TRSV", "TBSV", "TPSV", "GEMM", "SYMM", "SYRK", "SYR2K", "TRMM", "TRSM"]
CPLX = ["HEMV", "HBMV", "HPMV", "GERU", "GERC", "HER", "HPR", "HER2", "HPR2", "HEMM", "HERK", "HER2K"]
REAL = ["SYMV", "SBMV", "SPMV", "GER", "SYR", "SPR", "SYR2", "SPR2", "DOT"]
VEC = ["AXPY", "COPY", "SCAL", "DOT"]
PACKED = ["TPMV", "TPSV", "HPMV", "HPR", "HPR2", "SPMV", "SPR", "SPR2"]
BAND = ["TBMV", "TBSV", "HBMV", "SBMV"]
SOLVE = ["TRSV", "TBSV", "TPSV", "TRSM"]


def models(ctx):
    return [dict(module="MCBlas", workers=4, cfg="SPECIFICATION Spec\nCONSTANTS Values = %s Wide = %s\nINVARIANTS Ends Steps Storages\n" % (("{0, 1, 2}", "{0, 1}")[:2] if ctx.thorough else ("{0, 1}", "{0, 1}")))]


def one(rng, f, ty, big=False):
    z = ty in "zc"
    top = 12 if big else 4
    d = lambda: rng.randint(1, top)
    m, n, k, ku = d(), d(), d(), 0
    mag = 1 if f in SOLVE else 3
    v = lambda: [rng.randint(-mag, mag), rng.randint(-mag, mag) if z else 0]
    side, uplo, trans, transb, diag = rng.choice("LR"), rng.choice("UL"), rng.choice("NTC"), rng.choice("NTC"), rng.choice("UN")
    if f in ("SYRK", "SYR2K"):
        trans = rng.choice("NT" if z else "NTC")
    if f in ("HERK", "HER2K"):
        trans = rng.choice("NC")
    al, be = rng.choice([[1, 0], [2, 0], [-1, 0], v(), [0, 0]]), rng.choice([[1, 0], [0, 0], [-2, 0], v()])
    if f in ("HER", "HPR", "HERK"):
        al = [al[0], 0]
    if f in ("HERK", "HER2K"):
        be = [be[0], 0]
    pad = lambda: rng.choice([0, 0, 1, 3])
    inc = lambda: rng.choice([1, 1, 2, 3, -1, -2])
    slack = [v() for _ in range(2)]
    vec = lambda q, i: [v() for _ in range(1 + (q - 1) * abs(i))] + slack
    A, B, C, lda, ldb, ldc = [], [], [], 1, 1, 1
    order = m if f in ("SYMM", "HEMM", "TRMM", "TRSM") and side == "L" else n
    tri = f[0] in "T"
    # the matrix A
    if f in VEC:
        pass
    elif f == "GBMV":
        k, ku = rng.randint(0, m - 1), rng.randint(0, n - 1)
        lda = k + ku + 1 + pad()
        A = [v() for _ in range(lda * n)] + slack
    elif f in ("GEMV", "GER", "GERU", "GERC"):
        lda = m + pad()
        A = [v() for _ in range(lda * n)] + slack
    elif f == "GEMM":
        lda = (m if trans == "N" else k) + pad()
        A = [v() for _ in range(lda * (k if trans == "N" else m))] + slack
    elif f in ("SYRK", "HERK", "SYR2K", "HER2K"):
        lda = (n if trans == "N" else k) + pad()
        A = [v() for _ in range(lda * (k if trans == "N" else n))] + slack
    else:
        if f in BAND:
            k = rng.randint(0, n - 1)
            lda = k + 1 + pad()
        elif f not in PACKED:
            lda = order + pad()
        A = [v() for _ in range(order * (order + 1) // 2 if f in PACKED else lda * order)] + slack
        for i in range(order):                      # a real diagonal, or one that divides
            p = (i * (i + 3) // 2 if uplo == "U" else i * order - i * (i - 1) // 2) if f in PACKED else i * lda + (k if uplo == "U" else 0) if f in BAND else i * lda + i
            if f in SOLVE:
                A[p] = rng.choice([[1, 0], [-1, 0]] + ([[0, 1], [0, -1]] if z else []))
            elif f[0] == "H":
                A[p] = [A[p][0], 0]
    # B or x, C or y
    if f in ("GEMM", "SYR2K", "HER2K", "SYMM", "HEMM", "TRMM", "TRSM"):
        if f == "GEMM":
            r, c = (k, n) if transb == "N" else (n, k)
        elif f in ("SYR2K", "HER2K"):
            r, c = (n, k) if trans == "N" else (k, n)
        else:
            r, c = m, n
        ldb = r + pad()
        B = [v() for _ in range(ldb * c)] + slack
    elif f not in ("SYRK", "HERK", "SCAL"):
        ldb = inc()
        B = vec({"GEMV": n if trans == "N" else m, "GBMV": n if trans == "N" else m, "GER": m, "GERU": m, "GERC": m}.get(f, n), ldb)
    if f in ("GEMM", "SYMM", "HEMM", "SYRK", "HERK", "SYR2K", "HER2K"):
        r, c = (m, n) if f in ("GEMM", "SYMM", "HEMM") else (n, n)
        ldc = r + pad()
        C = [v() for _ in range(ldc * c)] + slack
        if f[0] == "H" and f != "HEMM":
            for i in range(n):
                C[i * ldc + i] = [C[i * ldc + i][0], 0]
    elif not tri and f not in ("HER", "HPR", "SYR", "SPR"):
        ldc = abs(inc()) if f == "SCAL" else inc()
        C = vec({"GEMV": m if trans == "N" else n, "GBMV": m if trans == "N" else n}.get(f, n), ldc)
    return {"e": "blas", "ty": Tag(ty), "f": Tag(f), "low": rng.random() < .15, "side": Tag(side), "uplo": Tag(uplo), "trans": Tag(trans), "transb": Tag(transb),
            "diag": Tag(diag), "m": m, "n": n, "k": k, "ku": ku, "lda": lda, "ldb": ldb, "ldc": ldc, "al": al, "be": be, "A": A, "B": B, "C": C}


def groups(ctx):
    rng = ctx.rng
    ops = []
    for f, tys in [(f, "dfzc") for f in BOTH] + [(f, "zc") for f in CPLX] + [(f, "df") for f in REAL]:
        for ty in "d" if f == "DOT" else tys:
            for q in range(ctx.n(30, 250)):
                ops.append(one(rng, f, ty, q % 16 == 15 and f not in SOLVE))
    rng.shuffle(ops)
    return [dict(driver="d03", trace="TraceD03", sessions=[[S] + ops[q:q + 10] for q in range(0, len(ops), 10)])]
