"""Which simulator decides which property, and how much of it runs per tier."""
CPP = ["clang 18 with AddressSanitizer compiles the library as gcc would",
       "the PRNG samples plans; a clean batch is evidence, not proof"]
PY = ["one interpreter (CPython 3.12 with pybind11 as installed)",
      "the PRNG samples plans; a clean batch is evidence, not proof"]

OWN = "through the Python package, allocations of 24 bytes do not fail (pybind11 does not survive that of its own)"


def python(prop, quick, thorough, *assumptions):
    """The part of a check that plays through the Python package."""
    return {"build": lambda b: b.build_python("driver.py", prop), "quick": quick, "thorough": thorough, "time_unit": "one user operation", "assumptions": PY + list(assumptions)}


WORLDS = {
    "C01": {"build": lambda b: b.build_world("world_store.cc", "C01"), "quick": 1500, "thorough": 60000, "python": python("C01", 800, 30000),
            "assumptions": CPP + ["a crash loses process memory and un-synced writes; sector contents never change by themselves (C02 covers altered bytes)"]},
    "C02": {"build": lambda b: b.build_world("world_corrupt.cc", "C02"), "quick": 2500, "thorough": 60000, "python": python("C02", 3000, 60000, "pickled state is given to an object made for it, as pickle does"),
            "assumptions": CPP + ["nesting of compound records is bounded by 500 levels in the search (decoding is recursive; unbounded nesting is a known finding)"]},
    "C04": {"build": lambda b: b.build_world("world_rangeset.cc", "C04"), "quick": 20000, "thorough": 600000, "python": python("C04", 1200, 40000),
            "assumptions": CPP + ["a moved-from range set is only assigned to, cleared, filled or destroyed"]},
    "C05": {"build": lambda b: b.build_world("world_rangeset.cc", "C05"), "quick": 16000, "thorough": 500000, "python": python("C05", 2000, 60000, OWN),
            "assumptions": CPP + ["memory runs out only where operator new reports it"]},
    "C06": {"build": lambda b: b.build_world("world_memory.cc", "C06"), "quick": 6000, "thorough": 200000, "python": python("C06", 2000, 60000, OWN),
            "assumptions": CPP + ["memory runs out only where operator new reports it"]},
    "C07": {"build": lambda b: b.build_world("world_memory.cc", "C07"), "quick": 3000, "thorough": 100000, "python": python("C07", 2000, 60000, OWN),
            "assumptions": CPP + ["memory runs out only where operator new reports it"]},
    "C08": {"build": lambda b: b.build_threads("world_threads.cc", "C08"), "quick": 1500, "thorough": 60000, "python": python("C08", 2500, 80000),
            "assumptions": ["interleavings are sequentially consistent; weaker memory orders are seen only as missing happens-before edges", "accesses inside the C and C++ runtime libraries are not instrumented (except string and formatting functions called by the library)",
                            "the PRNG samples plans; a clean batch is evidence, not proof"]},
    "C09": {"build": lambda b: b.build_world("world_owner.cc", "C09"), "quick": 12000, "thorough": 300000, "python": python("C09", 2000, 60000),
            "assumptions": CPP + ["a moved-from region is only assigned to or destroyed (a moved-from compound only destroyed)"]},
    "C10": {"build": lambda b: b.build_world("world_stream.cc", "C10"), "quick": 12000, "thorough": 400000,
            "assumptions": CPP + ["the C locale of the process stays the default one; the width setting is consumed as by any insertion"]},
    "C11": {"build": lambda b: b.build_world("world_pure.cc", "C11"), "quick": 4000, "thorough": 150000, "python": python("C11", 1500, 60000),
            "assumptions": CPP + ["reads of never-written memory are seen through their effect on results, released memory through AddressSanitizer"]},
    "C03": {"build": lambda b: b.build_nodes("world_wire.cc", "C03"), "quick": 1500, "thorough": 60000, "time_unit": "one tick of the simulated network clock",
            "assumptions": ["all builds run on this little-endian x86-64 machine; big-endian hosts are not simulated", "builds that let the compiler contract floating-point operations are outside the claim about query answers",
                            "the PRNG samples plans; a clean batch is evidence, not proof"]},
    "C15": {"build": lambda b: b.build_world("world_bigint.cc", "C15"), "quick": 16000, "thorough": 500000,
            "assumptions": CPP + ["the two digit arrays of an operation are the same or do not overlap"]},
    "C12": {"build": lambda b: b.build_python("driver.py", "C12"), "quick": 2000, "thorough": 40000, "time_unit": "one user operation",
            "assumptions": PY + ["objects whose initialisation was skipped (Class.__new__ without __init__, which altered pickles can spell) are excluded: pybind11 leaves them unusable",
                                 "altered pickles are read with a restricted find_class and altered YAML with the Safe and Full loaders, as untrusted data must be"]},
    "C13": {"build": lambda b: b.build_python("driver.py", "C13"), "quick": 1800, "thorough": 40000, "time_unit": "one user operation",
            "assumptions": PY + ["pybind11 tries each conversion twice, so a failure of __float__, __index__ or __iter__ that goes away at the second attempt may go unnoticed; the result must then be the healthy one",
                                 "memory does not run out inside pybind11 itself, which does not survive that (C05 to C07 cover the library)"]},
    "C14": {"build": lambda b: b.build_python("driver.py", "C14"), "quick": 5000, "thorough": 120000, "time_unit": "one user operation",
            "assumptions": PY},
}
