"""What each check runs. 'cases' are fixed per configuration (see VARIANTS in check.py), so that a run is a function of the
code and the seed; they are chosen so that a quick run searches for about 15 s on 8 cores."""


def plan(a, b=None, c=None, t=None, w=None, r=None, fuzz=True, factor=20, **more):
    if r is None:
        r = (b or 0) * 4
    quick = {k: v for k, v in (("A", a), ("B", b), ("C", c), ("R", r), ("T", t), ("W", w)) if v}
    thorough = {k: v * factor for k, v in quick.items()}
    return {
        "quick": {"cases": quick, "max_seconds": 200},
        "thorough": {"cases": thorough, "max_seconds": 1500, "fuzz_seconds": 240 if fuzz else 0},
        **more,
    }


CHECKS = {
    "C01": plan(100000, 60000),
    "C02": plan(60000, 20000),
    "C03": plan(200000, 100000, r=1000000),
    "C04": plan(300000, 100000, r=1200000, flags="-O0"),
    "C05": plan(250000, 80000, r=800000, flags="-O0"),
    "C06": plan(300000, 100000, r=1200000),
    "C07": plan(50000, 15000),
    "C08": plan(40000, 15000),
    "C09": plan(100000, 40000, flags="-O0"),
    "C10": plan(100000, 30000),
    # (with the detection of uses after a return, each exception makes the next frames slower)
    "C11": plan(80000, 20000, asan=":detect_stack_use_after_return=0"),
    "C12": plan(120000, 40000, r=400000),
    "C13": plan(100000, 40000, r=400000),
    "C14": plan(100000, 30000, flags="-O0"),
    "C15": plan(100000, 30000, flags="-O0"),
    "C16": plan(60000, 20000, r=300000),
    "C17": plan(250000, 80000),
    "C18": plan(200000, 60000, flags="-O0"),
    "C19": plan(40000, 12000),
    "C20": plan(80000, 15000, c=30000, flags="-O0"),
    "C21": plan(300000, 100000, r=1000000, flags="-O0"),
    "C22": plan(80000, 20000),
    "C23": plan(120000, 40000),
    "C24": plan(150000, 50000, flags="-O0"),
    "C25": plan(5000, t=5000, fuzz=False),
    "C26": plan(20000, 5000, r=0, fuzz=False),
    "C28": plan(10000, 4000),
    "C29": plan(None, w=20000, fuzz=False),
    # cases are programs of 20 commands each, and pairs of programs of which one must not compile
    "C27": {"script": "programs", "quick": {"cases": {"PA": 8, "PB": 10}, "items": 20, "pairs": 75}, "thorough": {"cases": {"PA": 120, "PB": 120}, "items": 20, "pairs": 600}},
}
