"""C06: ideal charge stability diagrams (share), decided by spec/ChargeTrace.tla."""
from csdcases import csd_case


def run(chk):
    chk.model("TctMC", cfg="TctMC" if chk.quick else "TctMCdeep", timeout=3000, workers=8)
    cases = [csd_case(chk.rng, "share", big=i % 12 == 0, huge=i % 25 == 7) for i in range(900 if chk.quick else 4000)]
    chk.count("pixels", sum(len(c["tla"]["lab"]) for c in cases))
    chk.count("large_scans", sum(len(c["tla"]["only"]) > 0 for c in cases))
    chk.count("scans_1d", sum(c["tla"]["rows"] == 0 for c in cases))
    chk.count("refused", sum(c["tla"]["err"] != "" for c in cases))
    chk.validate("ChargeTrace", cases, env={"PART": "share"}, workers=8, stride=8, timeout=3000)
