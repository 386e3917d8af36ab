"""I03: sliding window minimum and maximum are exact."""
from specs.sliding_min import *
from specs import sliding_min as M

UNITS = [("indicators/util.cc", ("trader::",))]
GHOSTS = M.GHOSTS
ASSUMES = ["fewer than 2^31-2 values are added", "no NaN values"]
REPLAY = ("indicators_oracle.cc", ["I03"], "indicators")


def tasks(P):
    ci = lambda f: M.ty_int(f)
    out = [Task("MinAdd", ADD.key, ADD, []), Task("MinUpdate", UPD.key, UPD, []), Task("MinGet", GET.key, GET, []),
           Task("MinNum", NUM.key, NUM, []), Task("MinWindow", WIN.key, WIN, []),
           Task("MinCtor", CTOR.key, CTOR, [], nparams=1, pick=ci),
           Task("MaxAdd", XADD.key, XADD, [ADD]), Task("MaxUpdate", XUPD.key, XUPD, [UPD]), Task("MaxGet", XGET.key, XGET, [GET]),
           Task("MaxNum", XNUM.key, XNUM, [NUM]), Task("MaxWindow", XWIN.key, XWIN, [WIN]),
           Task("MaxCtor", XCTOR.key, XCTOR, [CTOR], nparams=1, pick=ci)]
    return out
