for i in "C02 C05 C06 C08 C09 C11 C13 C23 C26".split():
    T[i] = (SCHED, SN)
T["C03"] = ("exhaustive fault enumeration on the real code under a controlled scheduler: every write and callback as a failure point, all sequences of failing requests to a depth, with every interleaving of the concurrent scenarios", SN)
for i in "C04 C07 C10 C12".split():
    T[i] = (SEQ, QN)
for i in "C14 C15 C16 C17 C18 C19 C20 C21 C22 C24 C25".split():
    T[i] = (INP, IN)
# the same calls also next to each other, under the controlled scheduler
for i in "C10 C12 C14 C15 C16 C17 C18 C19 C20 C21 C22 C24".split():
    t, n = T[i]
    T[i] = (t + "; and every interleaving, within a bound, of two or three such calls under a controlled scheduler with race detection", n)
