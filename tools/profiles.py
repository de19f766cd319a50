"""What the scripts of each property's check concentrate on."""
BIG, LOW = 2147483647, -2147483647
SOME = ["regM", "unregM", "getT", "newT", "dele", "reset", "set", "mutate", "gc", "tinfo"]


def only(**w):
    """a small share of everything else"""
    from gen import BASE
    return {**{k: v * .12 for k, v in BASE.items()}, **w}


P = {
    "C01": dict(u=dict(nd=(2, 3), samename=.25, emptyname=.1, dup=.3, fs=(0, 4), nf=(3, 6)),
                w=only(regF=6, unregF=6, regM=10, unregM=8, getT=4, newT=1.5, dele=1.5, tinfo=2), via=.35, setup=.5),
    "C02": dict(u=dict(nt=(3, 5), samename=.2, emptyname=.08), w=only(regT=10, unregT=9, getT=6, tinfo=12, newT=3, dele=1, regM=1.5, unregM=1)),
    "C03": dict(u=dict(nr=(3, 8), dep=.4, canon=.2, nm=(3, 6), rprios=[LOW, -2, -1, 0, 0, 0, 1, 1, 5, BIG - 1]),
                w=only(addR=9, remR=7, getT=14, tinfo=1, gc=1, newT=1.5, mutate=1.5)),
    "C04": dict(u=dict(nr=(1, 5), canon=.5, dep=.3, nm=(3, 6), orders=[LOW, -1, 0, 0, 0, 1, BIG]),
                w=only(addR=4, remR=4, regM=4, unregM=3, gc=3, getT=22, newT=3, dele=2, tinfo=1)),
    "C05": dict(u=dict(nm=(5, 8), clash=.3, bids=[0, 0, 0, 1], prios=[0, 0, 1], fs=(0, 4), sizes=[(300, 4), (70000, 8), (4096, 4096)], nr=(0, 2)),
                w=only(regM=5, unregM=4, getT=22, newT=2, mutate=2, tinfo=2), foreign=.25),
    "C06": dict(u=dict(nr=(0, 2), canon=.3), w=only(regM=7, unregM=7, gc=6, getT=12, newT=7, dele=6, reset=3, mutate=2, tinfo=2, mv=1, massign=1, copy=1)),
    "C07": dict(u=dict(nf=(3, 6), nm=(5, 8), fs=(1, 4), clash=.9, bids=[LOW, -1, 0, 0, 0, 1, BIG], prios=[LOW, -1, 0, 0, 1, BIG], nr=(0, 1), dep=.05),
                w=only(getT=12, tinfo=18, tm=6, newT=2, call=2, regM=1, unregM=1)),
    "C08": dict(u=dict(nf=(3, 6), nm=(4, 8), fs=(1, 4), clash=.95, noinit=0, nr=(0, 1), dep=.05, bids=[LOW, -1, 0, 0, 0, 1, 1, BIG]),
                w=only(call=30, newT=6, mutate=2, getT=6, dele=1, tinfo=1, mv=.5)),
    "C09": dict(u=dict(ext=.35, alloc=.3, no=.1, noinit=.04, dep=.05, nr=(0, 1), fs=(0, 1), sizes=[(5, 1), (7, 1), (300, 4), (4096, 4096), (24, 8), (16, 16)]),
                w=only(newT=10, getT=8, reset=7, mutate=5, mutateTo=3, mv=4, massign=4, copy=3, copyFrom=2, dele=4, moveMatch=1, piece=2, tinfo=2), fault=.05),
    "C10": dict(u=dict(ext=.35, alloc=.3, noinit=.15, fs=(0, 1), nr=(0, 2)),
                w=only(newT=5, getT=6, reset=8, mutate=9, mutateTo=6, gradual=5, piece=6, copyFrom=5, set=3, seal=1, dele=2, copy=2), fault=.5),
    "C11": dict(u=dict(ext=.3, alloc=.25, no=.14, fs=(0, 1), nr=(0, 1)),
                w=only(newT=7, getT=6, reset=5, mutate=5, mutateTo=4, gradual=2, piece=4, copy=4, copyFrom=4, copyMatch=2, moveMatch=3, mv=2, massign=3, clear=2.5, dele=5, set=3), fault=.25),
    "C12": dict(u=dict(noinit=.04, ext=.3, fs=(0, 1), nr=(0, 3)),
                w=only(newT=5, getT=8, reset=9, mutate=9, mutateTo=6, gradual=5, piece=4, set=7, dele=1.5), fault=.06),
    "C13": dict(u=dict(no=.07, grp=.1, noinit=.04, ext=.3, fs=(0, 1), nr=(0, 1), dep=.05),
                w=only(newT=7, getT=7, copy=9, copyFrom=9, copyMatch=6, moveMatch=6, set=9, reset=3, mutate=3, seal=.7, dele=4, newE=1), fault=.2),
    "C14": dict(u=dict(noinit=.04, ext=.3, fs=(0, 1), nr=(0, 1), dep=.05),
                w=only(newT=8, getT=6, newE=2, mv=8, massign=9, clear=4, seal=3, dele=5, set=4, reset=3, mutate=3, mutateTo=2, gradual=1.5, piece=1.5, copy=2, copyFrom=2), fault=.1),
    "C15": dict(u=dict(no=.12, noeq=.3, noinit=.03, fs=(0, 1), nr=(0, 1), dep=.03, nd=(1, 2), samename=.45, dup=.75, orders=[LOW, -1, 0, 0, 0, 1, BIG]),
                w=only(newT=6, getT=9, compare=12, equals=9, tcmp=9, set=10, twin=9, copy=4, tinfo=3, reset=1, regM=1, unregM=.5), fault=.02),
    "C16": dict(u=dict(nf=(2, 6), fs=(0, 3), nr=(0, 1), dep=.1, noinit=.03), w=only(tm=26, getT=7, regM=2.5, unregM=2, newT=1.5, gradual=3), via=.4),
    "C17": dict(u=dict(noinit=.07, ext=.3, fs=(0, 1), nr=(0, 3), nm=(4, 8)),
                w=only(newT=5, getT=5, newE=2, mutate=16, mutateTo=12, gradual=9, set=5, dele=3, regM=1, unregM=.5), fault=.12, via=.35),
    "C18": dict(u=dict(noinit=.06, ext=.3, fs=(0, 1), nr=(0, 1), dep=.05), w=only(newT=5, getT=7, newE=1.5, piece=26, set=5, dele=3, seal=.4), fault=.15),
    "C19": dict(u=dict(noinit=.06, fs=(0, 2), nr=(0, 2)), w=dict(mutateTo=11, mutate=8, tm=4, newT=6, getT=9, copy=3, copyFrom=3, piece=.3, gradual=.3, call=.5, twin=.5), via=.9, fault=.2),
    "C21": dict(u=dict(ext=.4, alloc=.4, noinit=.12, fs=(0, 2)),
                w=only(newE=3, newT=8, getT=7, dele=6, reset=6, mutate=6, mutateTo=4, mv=3, massign=4, copy=4, copyFrom=4, clear=3, gc=2, unregM=2, regM=2, piece=3, gradual=2), fault=.35),
    "C27": dict(u=dict(ext=.2, fs=(0, 3), nr=(0, 4), nf=(2, 6), nm=(4, 10), dup=.2, noinit=.05, nd=(1, 3)),
                w=only(regF=4, unregF=3, regM=7, unregM=5, regT=3, unregT=2, addR=6, remR=4, getT=14, gc=3, tm=8, newT=3, dele=2.5, mutate=8, mutateTo=4, gradual=5, tinfo=3, set=1), rt=.75, fault=.04),
    "C28": dict(u=dict(nf=(2, 6), fs=(0, 3), nr=(1, 5), nt=(1, 5), dup=.3, samename=.15, ext=.3, no=.15, noinit=.1, clash=.8, bids=[LOW, -1, 0, 0, 1, BIG]),
                w=only(dump=30, regF=3, unregF=2, regM=5, unregM=4, regT=4, unregT=2, addR=5, remR=2, getT=8, newT=4, dele=2, gc=1, reset=1, mutate=1), via=.1),
    "all": dict(u={}, w={}),
}
# many mixins: ids and tables beyond the small ones
MANY = dict(u=dict(nm=(24, 40), nf=(4, 6), fs=(0, 2), nr=(0, 3), dep=.1, noinit=.04, no=.04, names=0, nd=(1, 2)), w={}, length=110)
# requests for anything, few mixins: much repetition
FEW = dict(u=dict(nm=(2, 4), nf=(1, 3), nr=(0, 3), nd=(1, 2)), w={})
