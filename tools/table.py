"""What each check runs. histories: number recorded in the quick and thorough tier."""
CHECKS = {p: {} for p in ("P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24 P25 P26 P27 P28 P29").split()}
CHECKS["P24"] = {"histories": (200, 2500), "extra": ["limits"]}
CHECKS["P25"] = {"extra": ["linearizable"]}
CHECKS["P26"] = {"explore": False, "histories": (0, 0), "extra": ["concurrent"]}

# where the general description in meta.py does not apply
CHECKS["P22"]["note"] = ("The property has no formula of its own: every transition of the bounded model and every event of the histories is "
                         "executed through all entry points, which have to agree with each other and with the specification.")
CHECKS["P24"]["note"] = ("Exhaustive within the bounded model of spec/Models.tla and the size cases of spec/Limits.tla, both replayed in full on the "
                         "code; sizes between them are sampled. The number of elements at which ** gives up is not checked exactly.")
CHECKS["P25"]["technique"] = ("TLA+ specification; TLC enumerates sequences of registry calls, all replayed on the implementation; recorded sequential "
                              "histories are validated by TLC; recorded concurrent rounds are searched by TLC for a sequential explanation; race detector")
CHECKS["P25"]["note"] = ("Sequential behaviour is exhaustive within the bounded model and replayed in full. Concurrent rounds are sampled: the schedules "
                         "are those the Go runtime produced, not an enumeration.")
CHECKS["P26"]["technique"] = ("TLA+ model of concurrent queries (path memory, registry), all interleavings checked by TLC; calls made concurrently on the "
                              "implementation are recorded and each distinct outcome is validated by TLC against the sequential specification; race detector")
CHECKS["P26"]["note"] = ("The model is exhaustive for three queriers, but its interleavings are not replayed: on the code the schedules are sampled by "
                         "parallel execution.")
CHECKS["P28"]["note"] = ("Exhaustive within the bounded model of spec/Models.tla, replayed in full on the code. Where the answer is left open only its "
                         "shape, its repeatability and the refusal of malformed documents are required. Bounded time is judged by a watchdog.")
