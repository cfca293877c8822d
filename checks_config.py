"""Translation units and case counts of every property check."""

def cts(f, n=3):
    return [(f, ["VT_CT=%d" % k]) for k in range(n)]

CHECKS = {
    "T01": {"units": [("T01.cc", [])], "quick": 80000, "thorough": 2000000},
    "T02": {"units": [("T02.cc", [])], "quick": {"all": 30, "pairs": 100000}, "thorough": {"all": 30, "pairs": 4000000}},
    "T03": {"units": [("T03.cc", [])], "quick": 60000, "thorough": 400000},
    "T04": {"units": [("T04.cc", [])], "quick": 80000, "thorough": 600000},
    "R01": {"units": cts("R01.cc"), "quick": 512, "thorough": 1024},
    "R02": {"units": cts("R02.cc") + [("R02.cc", ["VT_CT=0", "VT_SEVEN=1"])], "quick": {"positions": 40000, "seven": 768}, "thorough": {"positions": 400000, "seven": 8000}},
    "R03": {"units": cts("R03.cc"), "quick": 4000, "thorough": 100000},
    "R04": {"units": cts("R04.cc"), "quick": 120000, "thorough": 2000000},
    "R05": {"units": cts("R05.cc"), "quick": 10000, "thorough": 100000},
    "G01": {"units": cts("G01.cc"), "quick": {"interpolation": 8000, "outside": 12000}, "thorough": {"interpolation": 400000, "outside": 600000}},
    "G02": {"units": cts("G02.cc"), "quick": 8000, "thorough": 400000},
    "G03": {"units": cts("G03.cc"), "quick": 32000, "thorough": 400000},
    "G04": {"units": cts("G04.cc"), "quick": 16000, "thorough": 200000},
    "G05": {"units": cts("G05.cc"), "quick": 8000, "thorough": 400000},
    "G06": {"units": cts("G06.cc"), "quick": 8000, "thorough": 400000},
    "G10": {"units": cts("G10.cc"), "quick": 8000, "thorough": 100000},
    "G07": {"units": cts("G07.cc"), "quick": {"mapped": 10000, "steep": 20000}, "thorough": {"mapped": 200000, "steep": 300000}},
    "G08": {"units": cts("G08.cc"), "quick": {"finiteelement": 1600, "steep": 2000}, "thorough": {"finiteelement": 80000, "steep": 60000}},
    "G09": {"units": cts("G09.cc"), "quick": {"volume": 800, "rough": 150}, "thorough": {"volume": 20000, "rough": 5000}},
    "G11": {"units": cts("G11.cc"), "quick": 2000, "thorough": 100000},
    "G12": {"units": cts("G12.cc"), "quick": 60000, "thorough": 300000},
    "Q01": {"units": cts("Q01.cc") + [("Q01quad.cc", [])], "quick": {"exact": 12000, "products": 6000, "quad": 6000}, "thorough": {"exact": 60000, "products": 100000, "quad": 60000}},
    "Q02": {"units": cts("Q02.cc"), "quick": {"inside": 4400, "line": 1000, "types": 600}, "thorough": {"inside": 60000, "line": 4000, "types": 10000}},
    "Q03": {"units": cts("Q03.cc"), "quick": {"history": 8000, "served": 800}, "thorough": {"history": 60000, "served": 4000}},
    "Q04": {"units": cts("Q04.cc"), "quick": 1500, "thorough": 60000},
    "F01": {"units": cts("F01.cc"), "quick": {"iterate": 1700, "many": 34}, "thorough": {"iterate": 30000, "many": 340}},
    "F02": {"units": cts("F02.cc"), "quick": 1700, "thorough": 30000},
    "F03": {"units": cts("F03.cc"), "quick": {"same": 3400, "pairs": 6000, "counts": 1200}, "thorough": {"same": 30000, "pairs": 40000, "counts": 20000}},
    "F04": {"units": cts("F04.cc"), "quick": {"program": 24000, "static": 8000}, "thorough": {"program": 300000, "static": 100000}},
    "V01": {"units": [("V01.cc", [])], "quick": {"reduce": 12000, "order": 12000}, "thorough": {"reduce": 200000, "order": 200000}},
    "P01": {"mode": "python", "quick": {"types": 20000, "names": 20000, "elements": 12000}, "thorough": {"types": 400000, "names": 400000, "elements": 200000}},
    "P02": {"mode": "python", "quick": {"rules": 4000, "integrals": 10000}, "thorough": {"rules": 20000, "integrals": 60000}},
    "P03": {"mode": "python", "quick": {"queries": 20000, "malformed": 6000}, "thorough": {"queries": 120000, "malformed": 40000}},
    "C01": {"mode": "tsan", "units": [("C01.cc", [])], "quick": 6000, "thorough": 100000, "cpu": 200,
            "assumptions": ["g++ with the thread sanitizer; dune-common and openblas are not instrumented", "interleavings are those the scheduler and the start skews produce"]},
}
