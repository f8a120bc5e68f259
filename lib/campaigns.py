"""What each property's check explores: specification, steps, driver, tolerance."""

CORE = {"driver": "core", "profile": "slice"}
RM = {"driver": "rm", "profile": "rm"}
LEGACY = {"driver": "legacy", "profile": "legacy"}
ENDF = {"driver": "endf", "profile": "endf"}
OLDEV = {"driver": "old", "profile": "old"}


def camp(base, name, main, quick, thorough, **kw):
    """quick and thorough: (steps, runs) or (steps, runs, least number of calls)"""
    def n(t):
        return {"steps": t[0], "runs": t[1], "least": t[2] if len(t) > 2 else int(t[0] * t[1] * 0.5)}
    quick, thorough = n(quick), n(thorough)
    if "workers" in kw:
        quick["workers"] = kw.pop("workers")
    return dict(base, name=name, main=main, quick=quick, thorough=thorough, **kw)


P_S = {"P_neutron", "S_neutron", "P_plain", "S_plain", "P_factory", "S_factory"}
PHI = {"phi_neutron", "phi_plain"}
SPHERE_STEPS = ["step", "stepMiddle", "stepEdge", "stepPoles"]
EXPLORE = "model_checking"

PROPERTIES = {
    "P01": {"level": EXPLORE, "campaigns": [
        camp(CORE, "all-small", "coupling", (1300, 1, 1180), (1300, 1, 1180), invariant="inv", eps=1e-12,
             ops={"channelSpins", "totalFromSpin", "totalFromPair"},
             must=["channelSpins", "totalFromSpin", "totalFromPair"]),
        camp(CORE, "far", "coupling", (200, 4), (1500, 16), step="stepFar", eps=1e-12,
             ops={"channelSpins", "totalFromSpin", "totalFromPair"}),
    ]},
    "P02": {"level": EXPLORE, "campaigns": [
        camp(CORE, "labels-%d" % k, "coupling", (1250, 1, 1250), (1250, 1, 1250), init="init%d" % k,
             step="stepLabels", ops={"label"}, eps=1e-15) for k in range(7)] + [
        camp(CORE, "far-labels", "coupling", (600, 4), (3000, 16), step="stepFarLabels", ops={"label"}, eps=1e-15),
    ]},
    "P03": {"level": EXPLORE, "campaigns": [
        camp(CORE, s, "hardsphere", (600, 4, 300), (4000, 32, 6000), step=s, invariant="inv", ops=P_S, eps=1e-12)
        for s in SPHERE_STEPS]},
    "P04": {"level": EXPLORE, "campaigns": [
        camp(CORE, s, "hardsphere", (600, 4, 200), (4000, 32, 3000), step=s, invariant="inv", ops=PHI, eps=1e-12)
        for s in SPHERE_STEPS]},
    "P05": {"level": EXPLORE, "campaigns": [
        camp(CORE, "neutral", "hardsphere", (1200, 4, 400), (6000, 16, 3000), step="stepEdge", eps=1e-15,
             ops={f + k for f in ("P_", "S_", "phi_", "w_") for k in ("photon", "fission")} | {"w_neutron"})]},
    "P06": {"level": EXPLORE, "campaigns": [
        camp(CORE, "barriers", "coulomb", (400, 8, 1500), (3000, 64, 50000), invariant="inv", eps=1e-7,
             ops={"P_charged", "S_charged"}),
        camp(CORE, "seams", "coulomb", (250, 4, 300), (2000, 16, 5000), step="stepSeams", eps=1e-7,
             ops={"P_charged", "S_charged"}),
        camp(CORE, "uncharged", "coulomb", (500, 4, 500), (3000, 16, 5000), step="stepUncharged", eps=1e-11,
             ops={"P_charged", "S_charged"})]},
    "P07": {"level": EXPLORE, "campaigns": [
        camp(CORE, "barriers", "coulomb", (400, 8, 700), (3000, 64, 30000), eps=1e-7, ops={"phi_charged"}),
        camp(CORE, "seams", "coulomb", (250, 4, 150), (2000, 16, 3000), step="stepSeams", eps=1e-7, ops={"phi_charged"}),
        camp(CORE, "uncharged", "coulomb", (500, 4, 300), (3000, 16, 3000), step="stepUncharged", eps=1e-11,
             ops={"phi_charged"})]},
    "P08": {"level": EXPLORE, "campaigns": [
        camp(CORE, "difference", "coulomb", (500, 4), (3000, 16), step="stepDifference", eps=1e-11)]},
    "P09": {"level": EXPLORE, "campaigns": [
        camp(CORE, "tuples", "pack", (400, 6, 2000), (3000, 24, 60000), invariant="inv", eps=1e-15)]},
    # R-matrix objects
    "P10": {"level": EXPLORE, "campaigns": [
        camp(RM, "pairs", "channel", (500, 16, 1000), (3000, 64, 20000), invariant="inv", eps=1e-13,
             ops={"particle", "pair"}, must=["particle", "pair"])]},
    "P11": {"level": EXPLORE, "campaigns": [
        camp(RM, "names", "channel", (400, 16, 1000), (2500, 64, 20000), invariant="inv", eps=1e-13, ops={"channel"})]},
    "P12": {"level": EXPLORE, "campaigns": [
        camp(RM, "kinematics", "channel", (300, 16, 1000), (2000, 64, 20000), eps=1e-12,
             ops={"channel", "kin", "ask", "askCharged"}, must=["kin"]),
        camp(RM, "thresholds", "channel", (200, 8, 800), (2000, 32, 20000), step="stepThreshold", eps=1e-13,
             ops={"channel", "kin"}, must=["kin"])]},
    "P13": {"level": EXPLORE, "campaigns": [
        camp(RM, "radii", "channel", (400, 16, 2000), (2500, 64, 40000), eps=2e-12,
             ops={"channel", "radii", "ask", "askCharged"}, must=["radii", "ask", "askCharged"])]},
    "P14": {"level": EXPLORE, "campaigns": [
        camp(RM, "broken", "compound", (60, 24, 900), (600, 64, 20000), step="stepBroken", eps=1e-13,
             must=["buildBroken", "buildDataBroken", "describe", "groups"]),
        camp(RM, "parts", "channel", (200, 8, 300), (1000, 32, 5000), eps=1e-13, ops={"particle", "pair", "channel"})]},
    "P15": {"level": EXPLORE, "campaigns": [
        camp(RM, "neutral", "compound", (50, 32, 500), (400, 128, 10000), invariant="inv", eps=2e-12,
             ops={"build", "evaluate", "evaluateClosed", "clear"}, must=["evaluate", "evaluateClosed"]),
        camp(RM, "charged", "compound", (50, 24, 250), (300, 128, 5000), step="stepCharged", invariant="inv", eps=2e-12,
             ops={"build", "evaluate", "evaluateClosed", "evaluateCharged", "clear"}, must=["evaluateCharged"])]},
    "P16": {"level": EXPLORE, "campaigns": [
        camp(RM, "thresholds", "compound", (80, 32, 1000), (600, 128, 20000), step="stepClosed", eps=2e-12,
             must=["evaluateClosed"])]},
    "P17": {"level": EXPLORE, "campaigns": [
        camp(RM, "neutral", "compound", (80, 24, 300), (500, 128, 8000), step="stepMatrix", eps=2e-12, must=["tmatrix"]),
        camp(RM, "charged", "compound", (80, 16, 100), (300, 64, 2000), step="stepMatrixCharged", eps=2e-12,
             must=["tmatrixCharged"])]},
    "P18": {"level": EXPLORE, "campaigns": [
        camp(RM, "histories", "compound", (80, 32, 1500), (600, 128, 30000), step="stepHistory", invariant="inv", eps=2e-12,
             must=["keep", "clear", "evaluate", "describe", "tmatrix", "grid"])]},
    "P19": {"level": EXPLORE, "campaigns": [
        camp(RM, "grids", "compound", (80, 32, 1500), (600, 128, 30000), step="stepGrid", eps=1e-13,
             must=["grid", "groupGrid"])]},
    "P20": {"level": EXPLORE, "campaigns": [
        camp(RM, "data", "compound", (60, 32, 1000), (500, 128, 30000), step="stepData", eps=2e-12,
             must=["buildData", "describe", "groups", "evaluate"])]},
    # legacy resonances
    "P21": {"level": EXPLORE, "campaigns": [
        camp(LEGACY, "single", "legacy", (80, 32, 1500), (600, 128, 30000), step="stepSingle", invariant="inv", eps=2e-14,
             must=["evaluate", "evaluateCompeting"])]},
    "P22": {"level": EXPLORE, "campaigns": [
        camp(LEGACY, "multi", "legacy", (80, 32, 1500), (600, 128, 30000), step="stepMulti", invariant="inv", eps=2e-14,
             must=["evaluate", "evaluateCompeting"])]},
    "P23": {"level": EXPLORE, "campaigns": [
        camp(LEGACY, "resolved", "legacy", (80, 24, 1200), (600, 96, 20000), invariant="inv", eps=2e-14,
             must=["evaluate", "keep", "clear", "grid"]),
        camp(LEGACY, "unresolved", "unresolved", (60, 16, 500), (400, 64, 10000), invariant="inv", eps=2e-14,
             must=["evaluate", "keep", "clear", "grid"])]},
    "P24": {"level": EXPLORE, "campaigns": [
        camp(LEGACY, "grids", "legacy", (100, 32, 2000), (800, 96, 40000), step="stepGrid", eps=1e-14,
             must=["grid", "groupGrid"])]},
    "P25": {"level": EXPLORE, "campaigns": [
        camp(LEGACY, "resolved", "legacy", (80, 24, 1200), (600, 64, 20000), step="stepBuild", eps=1e-14,
             must=["buildBroken", "describe", "groups", "width"]),
        camp(LEGACY, "unresolved", "unresolved", (80, 16, 900), (600, 64, 20000), step="stepBuild", eps=1e-14,
             must=["buildBroken", "describe", "groups"])]},
    "P26": {"level": EXPLORE, "campaigns": [
        camp(LEGACY, "averages", "unresolved", (80, 24, 900), (500, 128, 20000), step="stepAverage", invariant="inv", eps=2e-14,
             must=["evaluate"])]},
    "P27": {"level": EXPLORE, "campaigns": [
        camp(LEGACY, "integrals", "unresolved", (80, 16, 1000), (600, 64, 20000), step="stepIntegral", eps=1e-12,
             must=["integrals"]),
        camp(LEGACY, "tables", "unresolved", (100, 16, 800), (800, 64, 20000), step="stepTable", eps=1e-14,
             must=["parameters"])]},
    "P28": {"level": EXPLORE, "campaigns": [
        camp(LEGACY, "grids", "unresolved", (100, 32, 1500), (800, 128, 50000), step="stepGrid", invariant="inv", eps=1e-14,
             must=["grid"])]},
    # resonance ranges of ENDF files
    "P29": {"level": EXPLORE, "campaigns": [
        camp(ENDF, "ranges", "endf", (70, 24, 1200), (500, 96, 25000), step="stepRange", invariant="inv", eps=2e-12,
             ops={"read", "at", "atClosed", "outside", "grid"}, must=["read", "at", "outside", "grid"])]},
    "P30": {"level": EXPLORE, "campaigns": [
        camp(ENDF, "radii", "endf", (100, 24, 1500), (800, 96, 40000), step="lookAny", eps=1e-13,
             ops={"read", "describe"}, must=["read", "describe"]),
        camp(ENDF, "refusals", "endf", (60, 8, 250), (500, 64, 15000), step="stepBroken", eps=1e-13, workers=2,
             ops={"read", "readBroken", "describe"}, must=["readBroken", "describe"])]},
    "P31": {"level": EXPLORE, "campaigns": [
        camp(ENDF, "waves", "endf", (90, 32, 2000), (600, 128, 50000), step="stepWaves", eps=1e-13,
             must=["at", "atCompeting", "read", "describe", "groups"])]},
    "P32": {"level": EXPLORE, "campaigns": [
        camp(ENDF, "moore", "endf", (75, 32, 1200), (500, 128, 40000), step="stepMoore", eps=2e-12,
             must=["at", "read", "describe", "groups"])]},
    "P33": {"level": EXPLORE, "campaigns": [
        camp(ENDF, "limited", "endf", (75, 32, 1000), (500, 128, 30000), step="stepLimited", eps=2e-12,
             must=["at", "atClosed", "read", "describe", "groups"]),
        camp(ENDF, "charged", "endf", (60, 8, 250), (400, 64, 10000), step="stepCharged", eps=2e-12, workers=4,
             must=["atCharged", "read"])]},
    "P34": {"level": EXPLORE, "campaigns": [
        camp(ENDF, "averages", "endf", (90, 32, 2000), (600, 128, 50000), step="stepAverages", eps=1e-13,
             must=["at", "read", "describe", "groups"])]},
    "P35": {"level": EXPLORE, "campaigns": [
        camp(ENDF, "broken", "endf", (80, 24, 1500), (600, 96, 40000), step="stepBroken", eps=1e-13,
             ops={"read", "readBroken", "describe", "groups"}, must=["readBroken", "describe", "groups"])]},
    # evaluators straight from a range
    "P36": {"level": EXPLORE, "campaigns": [
        camp(OLDEV, "single", "old", (80, 16, 900), (600, 96, 30000), step="stepSingle", invariant="inv", eps=1e-13, workers=4,
             must=["at", "atCompeting", "combine", "read"]),
        camp(OLDEV, "multi", "old", (80, 16, 900), (600, 96, 30000), step="stepMulti", eps=1e-13, workers=4,
             must=["at", "atCompeting", "combine", "read"])]},
    "P37": {"level": EXPLORE, "campaigns": [
        camp(OLDEV, "moore", "old", (80, 32, 1500), (600, 128, 50000), step="stepMoore", invariant="inv", eps=1e-13,
             must=["at", "read"])]},
    "P38": {"level": EXPLORE, "campaigns": [
        camp(OLDEV, "broken", "old", (90, 24, 1500), (600, 96, 40000), step="stepBroken", invariant="inv", eps=1e-13,
             must=["read", "readBroken", "at"])]},
}
