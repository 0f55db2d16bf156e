"""The check of every property: what is explored, on which component of the specification."""
import common
import feats
import simcheck

COMMON = ["observation points: Queue.items, Environment.request_process_of_resource, EventLogger.event_data, the event loop; "
          "recorded from outside, nothing of /repo is changed",
          "TLC and the JVM are trusted; times are compared at 1/1000 minute"]


def N(quick, thorough):
    return quick if common.tier() == "quick" else thorough


def traces(chk, proj, module, names, quick, thorough, **kw):
    chk.assumptions += COMMON
    if common.tier() == "thorough":
        names = list(names) + [x for x in kw.pop("extra", ()) if x not in names]
    else:
        kw.pop("extra", None)
    kw.setdefault("mix", N(3, 2) * N(quick, thorough))
    fs = {**feats.pick(*names), **simcheck.fixed(*kw.pop("scenarios", ()))}
    return simcheck.run(chk, proj, module, fs, N(quick, thorough), **kw)


def p01(chk):
    traces(chk, "flow", "T_Flow", ["base", "finite", "dag", "stores", "storesfin", "aux", "batch", "rework", "bd", "multi",
                                   "load", "agvcap", "link", "everything", "twoqmix"], 9, 150, extra=["setup", "pbd", "cap", "rep", "sub", "pol", "auxfin", "twoq"],
           scenarios=["two_outputs"])


def p02(chk):
    traces(chk, "plan", "T_Plan", ["base", "dag", "dagbig", "dagcapbig", "cap", "dagcap", "rep", "sub", "rework", "batch", "finite", "proccap",
                                   "everything"], 16, 250, extra=["setup", "stores", "pol", "multi", "load"])


def p03(chk):
    traces(chk, "rework", "T_Rework", ["rework", "rework1", "rwshare", "rwsharedag", "batchrw", "rwbd", "everything", "base"], 30, 500)


def p04(chk):
    traces(chk, "buffer", "T_Buffer", ["finite", "stores", "storesfin", "auxfin", "batch", "load", "everything", "agvcap", "rework", "setupfin"],
           24, 220, extra=["base", "multi", "setup", "bd", "twoqmix"], scenarios=["two_outputs", "two_inputs", "batch_outputs"])


def p05(chk):
    traces(chk, "capacity", "T_Capacity", ["proccap", "agvcap", "setup", "load", "bd", "finite", "batch", "base", "link", "everything"],
           13, 220, extra=["setupbd", "pbd", "stores", "aux", "charging"])


def p06(chk):
    traces(chk, "interrupt", "T_Interrupt", ["bd", "bdov", "setupbd", "rwbd", "chbd", "zerorep", "finite", "everything"], 18, 260)


def p07(chk):
    traces(chk, "interrupt", "T_Interrupt", ["pbd", "pbdsub", "bdov", "zerorep", "setupbd", "setupbd1", "everything"], 22, 300)


def p08(chk):
    traces(chk, "setup", "T_Setup", ["setup", "setup1", "setup3", "setupbd", "setupbd1", "everything"], 24, 300)


def p09(chk):
    traces(chk, "move", "T_Move", ["base", "loading", "link", "linkcap", "linkx", "linkio", "euclid", "stores", "aux", "bd", "finite", "multi", "everything"],
           16, 160)


def p10(chk):
    traces(chk, "move", "T_Move", ["loading", "link", "linkcap", "linkx", "linkio", "linkload", "euclid", "sto", "base"], 26, 260)


def p11(chk):
    traces(chk, "policy", "T_Policy", ["pfifo", "plifo", "pspt", "psptt", "pnout", "pnin", "pnaux", "pnst", "bd", "batchpol", "everything"], 12, 200,
           extra=["base", "setup", "aux"])


def p12(chk):
    traces(chk, "route", "T_Route", ["linkcap", "linklone", "rfifo", "rshort", "rstore", "rmix", "finite", "dagcap", "stores", "everything", "link", "load", "agvcap", "aux"],
           18, 220, extra=["base", "bd", "batch", "rep", "rework"])


def p13(chk):
    traces(chk, "batch", "T_Batch", ["batch", "batchbd", "batchmix", "batchproc", "batchsub", "batchrwsto"], 26, 350)


def p14(chk):
    traces(chk, "aux", "T_Aux", ["aux", "auxfin", "auxmany", "pnaux"], 30, 350)


def p15(chk):
    traces(chk, "charge", "T_Charge", ["charging", "chbd", "chload", "chedge", "everything"], 28, 350)


def p16(chk):
    traces(chk, "progress", "T_Progress", ["base", "finite", "proccap", "setup", "bd", "pbd", "batchbd", "batchmix", "aux", "storesfin", "stores2", "linkcap", "linklone", "batchsub",
                                           "chload", "rework", "rmix", "agvcap", "setupbd", "everything", "load", "dagcap", "twoq"], 10, 120,
           extra=["link", "cap", "stores", "multi", "pol", "chbd", "batch", "auxfin", "bdov", "batchproc", "setup3", "rwshare", "dagbig", "zerorep", "twoqmix"],
           scenarios=["two_outputs", "two_inputs", "batch_outputs"])


def p17(chk):
    traces(chk, "log", "T_Log", ["base", "finite", "setupbd", "bd", "pbd", "batchbd", "aux", "rework", "chbd", "everything", "loading", "link", "agvcap",
                                 "storesfin"], 8, 90, extra=["setup", "rwbd", "bdov", "auxmany", "multi", "dagcap", "sto"])


def p18(chk):
    import repro
    chk.assumptions += ["a run is compared through its event log and its final queues and finished products"]
    names = ["base", "sto", "everything", "finite", "link", "dag", "aux", "rmix", "multi", "loading", "batchmix", "rework"]
    if common.tier() == "thorough":
        names += ["setupbd", "chbd", "stores", "pnin", "psptt", "agvcap", "cap", "dagcap", "pbd", "auxfin"]
    repro.check(chk, names, N(4, 40), horizon=N(300, 600))


def p19(chk):
    import tmcheck
    tmcheck.check(chk, N(40, 600))
    traces(chk, "arrive", "T_Arrive", ["arr", "arrshare", "arrzero", "arrdown", "base", "setupbd", "pbd", "bd", "charging", "sto", "rework", "batch",
                                       "everything"], 10, 130, extra=["multi", "bdov", "chbd", "cap", "proccap"])


def p29(chk):
    traces(chk, "shop", "T_Shop", ["base", "finite", "bd", "load", "multi", "sub", "proccap1", "cap", "shop", "dag", "dagcap", "dagcapbig", "shopst", "shopst2", "twoq"], 13, 260, mix=0)
    import shopcheck
    shopcheck.check(chk, N(18, 160), N(3, 12), timeout=N(500, 3000))


def p20(chk):
    traces(chk, "kpi", "T_Kpi", ["base", "finite", "bd", "multi", "aux", "batchbd", "rework", "loading", "charging", "agvcap", "setupbd2", "sub", "auxbd",
                                 "everything"], 8, 100, extra=["stores", "pbd", "link", "dagcap", "sto", "load", "arr"])


def p21(chk):
    traces(chk, "states", "T_States", ["base", "finite", "bd", "bdov1", "setup", "setupbd2", "charging", "chbd", "agvcap", "proccap", "batchbd", "loading",
                                       "rework", "aux"], 10, 120, extra=["link", "dagcap", "storesfin", "sto", "rwbd"], scenarios=["three_running"])


def p22(chk):
    import configcheck
    configcheck.check(chk, N(320, 8000))


def p23(chk):
    import hashcheck
    hashcheck.trip_check(chk, N(200, 1200))


def p24(chk):
    import hashcheck
    hashcheck.hash_check(chk, N(320, 2400))


def p25(chk):
    import optcheck
    optcheck.tune_check(chk, N(240, 4000))


def p26(chk):
    import optcheck
    optcheck.recon_check(chk, N(160, 4000))


def p27(chk):
    import expresscheck
    expresscheck.check(chk, N(288, 2400))


def p28(chk):
    import searchcheck
    searchcheck.check(chk, N(64, 800))


REGISTRY = {f.__name__.upper(): f for k, f in list(globals().items()) if k[0] == "p" and k[1:].isdigit()}
