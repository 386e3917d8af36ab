"""I04: sliding mean, variance and standard deviation are those of the window."""
from specs.sliding_mean import *
from specs import sliding_mean as M

UNITS = [("indicators/util.cc", ("trader::",))]
GHOSTS = M.GHOSTS
ASSUMES = ["fewer than 2^31-1 values are added", "floating-point arithmetic is exact (real numbers), except in the tasks VarianceRounded and StdDevRounded",
           "the induction over the window length in lemma VarianceNonNegative is combined by hand from its proved base and step"]
REPLAY = ("indicators_oracle.cc", ["I04"], "indicators")


NN = Contract(VAR.key, None, lambda c: [("never-negative", c.res >= 0)], lambda c: [])
NNSD = Contract(SD.key, None, lambda c: [("never-negative", c.res >= 0)], lambda c: [])


def tasks(P):
    ci = lambda f: M.is_int_ctor(f)
    return [Task("Add", ADD.key, ADD, []), Task("Update", UPD.key, UPD, []), Task("Mean", MEAN.key, MEAN, []),
            Task("Variance", VAR.key, VAR_BODY, []), Task("StdDev", SD.key, SD, [VAR]),
            Task("Num", NUM.key, NUM, []), Task("WindowSize", SIZE.key, SIZE, []),
            Task("Ctor", CTOR.key, CTOR, [], nparams=1, pick=ci), M.LEMMA,
            # the same two functions under machine arithmetic (any monotone rounding): no negative variance, no NaN
            Task("VarianceRounded", VAR.key, NN, [], mode="rnd", skip_kinds=("fdiv", "overflow", "iovf")),
            Task("StdDevRounded", SD.key, NNSD, [NN], mode="rnd")]
