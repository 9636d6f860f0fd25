#!/usr/bin/env python3
"""Decides one property of coil by property-based testing:  check.py ID [--tier quick|thorough]

Builds the library from /repo's working tree in several configurations together with the property's harness, generates
cases, compares with the oracle, shrinks failures to a replay file, and writes evidence/ID.json.
Exit 0: held on everything generated. Exit 1 and a VIOLATION line: broken. Anything else: the check could not run.
"""
import argparse, array, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("COIL_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CACHE = os.path.join(HERE, "build", "cache")
ENGINE = os.path.join(HERE, "engine")

ASAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
COMMON = "-std=c++17 -g1 -w"
CLANG = "-include " + os.path.join(ENGINE, "clang_compat.h")
VARIANTS = {
    # clang, asserts on, exceptions caught; uninitialised locals hold a pattern
    "A": ("clang++", f"{COMMON} -O1 {CLANG} {ASAN} -ftrivial-auto-var-init=pattern -DCOIL_CONFIG_CATCH_EXCEPTIONS=1 -DCOIL_CONFIG_ENABLE_ASSERTS=1"),
    # gcc, asserts off, exceptions not caught
    "B": ("g++", f"{COMMON} -O1 {ASAN} -DNDEBUG -DCOIL_CONFIG_CATCH_EXCEPTIONS=0 -DCOIL_CONFIG_ENABLE_ASSERTS=0"),
    # integer aliases as type names (the repository's own tests cannot be built like this)
    "C": ("clang++", f"{COMMON} -O1 {CLANG} {ASAN} -DCOIL_CONFIG_CATCH_EXCEPTIONS=1 -DCOIL_CONFIG_ENABLE_ASSERTS=1 -DCOIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS=1"),
    # as shipped: optimised, without sanitizers, so that the real allocator and stack use addresses again
    "R": ("g++", f"{COMMON} -O2 -DNDEBUG -DCOIL_CONFIG_CATCH_EXCEPTIONS=1 -DCOIL_CONFIG_ENABLE_ASSERTS=0"),
    # threads
    "T": ("clang++", f"{COMMON} -O1 {CLANG} -fsanitize=thread -DCOIL_CONFIG_CATCH_EXCEPTIONS=1 -DCOIL_CONFIG_ENABLE_ASSERTS=1"),
    # work is counted: a call at every branch, and the C library's functions that take time in proportion wrapped
    "W": ("clang++", f"{COMMON} -O1 {CLANG} -fno-builtin -fsanitize-coverage=trace-pc -DNDEBUG -DCOIL_CONFIG_CATCH_EXCEPTIONS=1 -DCOIL_CONFIG_ENABLE_ASSERTS=0 "
          + " ".join("-Wl,--wrap=" + f for f in "memcpy memmove memset memcmp strlen strcmp strncmp memchr strchr vsnprintf strtol strtoul strtoll strtoull strtof strtod strtold".split())),
    # as A and B for generated programs, the headers as users get them
    "PA": ("clang++", f"{COMMON} -O1 {ASAN} -fno-sanitize=vptr -DCOIL_CONFIG_CATCH_EXCEPTIONS=1 -DCOIL_CONFIG_ENABLE_ASSERTS=1"),
    "PB": ("g++", f"{COMMON} -O1 {ASAN} -fno-sanitize=vptr -DNDEBUG -DCOIL_CONFIG_CATCH_EXCEPTIONS=0 -DCOIL_CONFIG_ENABLE_ASSERTS=0"),
    # coverage-guided
    "F": ("clang++", f"{COMMON} -O1 {CLANG} -fsanitize=fuzzer-no-link {ASAN} -DCOIL_CONFIG_CATCH_EXCEPTIONS=1 -DCOIL_CONFIG_ENABLE_ASSERTS=1"),
}

SANITIZER_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:hard_rss_limit_mb=3500:allocator_may_return_null=0:max_allocation_size_mb=2000:detect_stack_use_after_return=1:check_initialization_order=1:symbolize=1:handle_abort=0:quarantine_size_mb=32:malloc_context_size=8",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1",
}


def die(text):
    print("ERROR:", text, flush=True)
    sys.exit(2)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree_files(root, endings):
    out = []
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for name in sorted(files):
            if name.endswith(endings):
                out.append(os.path.join(base, name))
    return out


def sources():
    found = tree_files(os.path.join(REPO, "src"), (".cpp", ".cc", ".cxx"))
    if not found:
        die("no sources in " + REPO)
    return found


class Build:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src")):
            for path in tree_files(root, ("",)):
                h.update(os.path.relpath(path, REPO).encode() + b"\0" + read(path) + b"\0")
        self.repo_hash = h.hexdigest()
        h = hashlib.sha256()
        for path in tree_files(ENGINE, ("",)):
            h.update(os.path.basename(path).encode() + b"\0" + read(path) + b"\0")
        self.engine_hash = h.hexdigest()
        self.prune()

    @staticmethod
    def prune():
        entries = [(os.stat(os.path.join(CACHE, n)), os.path.join(CACHE, n)) for n in os.listdir(CACHE)]
        total = sum(s.st_size for s, _ in entries)
        for s, path in sorted(entries, key=lambda e: e[0].st_mtime):
            if total < 2_000_000_000:
                break
            total -= s.st_size
            os.unlink(path)

    @staticmethod
    def run(command):
        r = subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise RuntimeError("build failed: " + " ".join(command) + "\n" + r.stdout[-6000:])

    def compile(self, compiler, flags, source, extra_key):
        key = hashlib.sha256("\0".join([compiler, flags, source, extra_key]).encode() + read(source)).hexdigest()
        target = os.path.join(CACHE, key + ".o")
        if not os.path.exists(target):
            temp = target + f".{os.getpid()}.{os.urandom(4).hex()}.o"
            self.run([compiler, *flags.split(), f"-I{REPO}/include", f"-I{ENGINE}", "-c", source, "-o", temp])
            os.replace(temp, target)
        return target

    def program(self, pid, variant, pool):
        """Returns a future-like callable that links and returns the program's path."""
        compiler, flags = VARIANTS[variant]
        prop_flags = CHECKS[pid].get("flags", "")
        fuzz = variant == "F"
        key = self.repo_hash
        jobs = [pool.submit(self.compile, compiler, flags, s, key) for s in sources()]
        jobs.append(pool.submit(self.compile, compiler, f"{flags} {prop_flags}", os.path.join(HERE, "props", CHECKS[pid].get("source", pid) + ".cpp"), key + self.engine_hash))
        main_flags = f"-std=c++17 -O1 -g1 {'-DPBT_FUZZ' if fuzz else ''} {'-fsanitize=thread' if variant == 'T' else ''}"
        jobs.append(pool.submit(self.compile, compiler, main_flags, os.path.join(ENGINE, "pbt_main.cpp"), self.engine_hash))

        def link():
            objects = [j.result() for j in jobs]
            name = os.path.join(CACHE, hashlib.sha256("\0".join(objects + [compiler, flags]).encode()).hexdigest() + ".exe")
            if not os.path.exists(name):
                temp = name + f".{os.getpid()}"
                link_flags = flags.replace("fuzzer-no-link", "fuzzer")
                self.run([compiler, *link_flags.split(), *objects, "-lpthread", "-o", temp])
                os.replace(temp, name)
            return name
        return link


def dictionary(path):
    """Literals of the code under test, as extra interesting values for the generators."""
    numbers, strings = set(), set()
    for f in tree_files(os.path.join(REPO, "src"), (".cpp", ".h", ".cc")) + tree_files(os.path.join(REPO, "include"), (".h", ".hpp")):
        text = read(f).decode("utf-8", "replace")
        text = re.sub(r"//[^\n]*", "", text)
        text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', text):
            if "#include" in text[max(0, text.rfind("\n", 0, m.start())):m.start()]:
                continue
            try:
                value = m.group(1).encode("latin-1", "replace").decode("unicode_escape")
            except UnicodeDecodeError:
                continue
            if 0 < len(value) <= 80:
                strings.add(value.encode("latin-1", "replace"))
        for m in re.finditer(r"(?<![\w.'])(0[xX][0-9a-fA-F']+|[0-9][0-9']*)(?:[uUlLzZ]*)(?![\w.])", text):
            try:
                value = int(m.group(1).replace("'", ""), 0 if m.group(1)[:2].lower() == "0x" else 10)
            except ValueError:
                continue
            if value < 1 << 64:
                numbers.add(value)
        for m in re.finditer(r"'((?:[^'\\\n]|\\.))'", text):
            try:
                strings.add(m.group(1).encode("latin-1", "replace").decode("unicode_escape").encode("latin-1", "replace"))
            except UnicodeDecodeError:
                pass
    with open(path, "w") as out:
        for n in sorted(numbers)[:400]:
            out.write(f"num {n}\n")
        for s in sorted(strings)[:400]:
            out.write("str " + s.hex() + "\n")
    return len(numbers), len(strings)


def environment():
    env = dict(os.environ)
    env.update(SANITIZER_ENV)
    for name in ("LD_PRELOAD", "ASAN_SYMBOLIZER_PATH"):
        env.pop(name, None)
    if shutil.which("llvm-symbolizer-18"):
        env["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer-18")
    env["LC_ALL"] = "C"
    return env


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def self_test():
    """Nothing is prepared ahead: every check builds what it needs. This only makes sure that it can."""
    for tool in ("clang++", "g++"):
        if not shutil.which(tool):
            die(tool + " is missing")
    for pid in CHECKS:
        if "script" not in CHECKS[pid] and not os.path.exists(os.path.join(HERE, "props", CHECKS[pid].get("source", pid) + ".cpp")):
            die("no property file for " + pid)
    print(f"{len(CHECKS)} checks, ready")
    return 0


def main():
    if sys.argv[1:] == ["--self-test"]:
        return self_test()
    parser = argparse.ArgumentParser()
    parser.add_argument("id")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int, default=None)
    parser.add_argument("--scale", type=float, default=1.0, help="multiplies the number of cases (development)")
    parser.add_argument("--replay", help="re-run a replay file")
    args = parser.parse_args()
    pid = args.id
    if pid not in CHECKS:
        die("unknown property " + pid)
    check = CHECKS[pid]
    try:
        seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    started = time.time()
    build = Build()
    env = environment()
    env["ASAN_OPTIONS"] += check.get("asan", "")
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    if "script" in check:
        return programs_check(pid, check, args, seed, build, env, started)

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as pool:
        if args.replay:
            variant = re.search(r"^variant (\w+)", open(args.replay, errors="replace").read(), re.M).group(1)
            program = build.program(pid, variant, pool)()
            return subprocess.run([program, "replay", args.replay], env=env).returncode

        plan = check[args.tier]
        links = {v: build.program(pid, v, pool) for v in plan["cases"]}
        if plan.get("fuzz_seconds"):
            links["F"] = build.program(pid, "F", pool)
        try:
            programs = {v: link() for v, link in links.items()}
        except RuntimeError as error:
            die(str(error))
    build_s = time.time() - started

    for finding in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {finding}", flush=True)

    work = tempfile.mkdtemp(prefix="coilcheck.")
    violation = None
    runs = []
    hashes = set()
    try:
        dict_path = os.path.join(work, "dict")
        dict_counts = dictionary(dict_path)
        workers = max(2, min(8, os.cpu_count() or 8))
        fuzz = None
        for variant, cases in plan["cases"].items():
            out, hash_path = os.path.join(work, variant + ".json"), os.path.join(work, variant + ".hashes")
            replay = os.path.join(HERE, "replays", f"{pid}.{variant}.txt")
            if os.path.exists(replay):
                os.unlink(replay)
            cases = max(workers, int(cases * args.scale))
            command = [programs[variant], "run", "--cases", str(cases), "--seed", str(seed), "--variant", variant, "--workers", str(workers),
                       "--max-seconds", str(plan.get("max_seconds", 240)), "--dict", dict_path, "--out", out, "--hashes", hash_path, "--replay", replay]
            r = subprocess.run(command, env=env, stdout=subprocess.PIPE, text=True, errors="replace")
            sys.stdout.write(r.stdout)
            if r.returncode == 1 and os.path.exists(replay):
                violation = replay
                break
            if r.returncode != 0 or not os.path.exists(out):
                die(f"the harness of {pid} variant {variant} ended with {r.returncode}")
            stats = json.load(open(out))
            runs.append(stats)
            values = array.array("Q")
            values.frombytes(read(hash_path))
            hashes.update(values)
        fuzz_stats = None
        if not violation and plan.get("fuzz_seconds"):
            if args.scale < 1:
                plan = dict(plan, fuzz_seconds=max(5, int(plan["fuzz_seconds"] * args.scale)))
            violation, fuzz_stats = fuzz_run(pid, programs, plan, seed, env, work, dict_path, workers)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    evaluations = sum(r["evaluations"] for r in runs) + (fuzz_stats["executions"] if fuzz_stats else 0)
    labels = {}
    for r in runs:
        for name, count in r["labels"].items():
            labels[name] = labels.get(name, 0) + count
    evidence = {
        "property": pid, "tier": args.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": runs[0]["rule"] if runs else "the run ended with a violation before statistics were complete",
            "samples": [s for r in runs for s in r["samples"]][:10],
            "classes": labels,
            "runs": [{k: r[k] for k in ("variant", "planned", "evaluations", "discarded", "nontrivial", "distinct_nontrivial", "choices", "max_choices", "truncated", "unreproduced", "seconds")} for r in runs],
            "configurations": {v: VARIANTS[v][0] + " " + VARIANTS[v][1].replace(ENGINE + "/", "") for v in plan["cases"]},
            "coverage_guided": fuzz_stats,
            "dictionary": {"numbers": dict_counts[0], "strings": dict_counts[1]},
            "build_s": round(build_s, 1),
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - started, 1),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if violation:
        print(f"VIOLATION property={pid} replay={violation}", flush=True)
        return 1
    print(f"{pid}: held on {evaluations} cases, {len(hashes)} distinct and non-trivial, in {evidence['wall_s']} s (build {build_s:.1f} s)", flush=True)
    return 0


def programs_check(pid, check, args, seed, build, env, started):
    """Checks whose cases are whole programs."""
    sys.path.insert(0, os.path.join(HERE, "props"))
    sys.dont_write_bytecode = True
    import importlib
    module = importlib.import_module(check["script"])
    if args.replay:
        return module.replay(args.replay, build, env, REPO, VARIANTS, sources())
    for finding in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {finding}", flush=True)
    replay = os.path.join(HERE, "replays", f"{pid}.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    plan = check[args.tier]
    try:
        message, stats = module.run(pid, plan, seed, args.scale, build, env, REPO, VARIANTS, sources(), replay)
    except RuntimeError as error:
        die(str(error))
    evidence = {
        "property": pid, "tier": args.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats["evaluations"], "distinct_nontrivial": len(stats["hashes"]), "rule": module.RULE,
            "samples": stats["samples"][:12] or ["the run ended with a violation before samples were taken"], "classes": stats["labels"],
            "programs": stats["programs"], "commands": stats["items"], "calls": stats["calls"], "rejected_programs": stats["pairs"],
            "configurations": {v: VARIANTS[v][0] + " " + VARIANTS[v][1] for v in plan["cases"]},
        },
        "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - started, 1), "violations": 1 if message else 0,
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if message:
        print(f"FAILED {pid} {message}", flush=True)
        print(f"VIOLATION property={pid} replay={replay}", flush=True)
        return 1
    print(f"{pid}: held on {evidence['coverage']['evaluations']} cases, {evidence['coverage']['distinct_nontrivial']} distinct and non-trivial, in {evidence['wall_s']} s", flush=True)
    return 0


def fuzz_run(pid, programs, plan, seed, env, work, dict_path, workers):
    """The same property driven by libFuzzer; a crashing input becomes a shrunk replay of variant A."""
    corpus = os.path.join(work, "corpus")
    os.makedirs(corpus)
    fenv = dict(env, PBT_DICT=dict_path)
    running = []
    for w in range(workers):
        artifacts = os.path.join(work, f"crash{w}-")
        log = open(os.path.join(work, f"fuzz{w}.log"), "w")
        command = [programs["F"], corpus, f"-seed={seed * 1000 + w + 1}", f"-max_total_time={plan['fuzz_seconds']}", "-max_len=4096", "-use_value_profile=1", "-timeout=60", "-rss_limit_mb=3000",
                   "-reload=1", "-print_final_stats=1", f"-artifact_prefix={artifacts}", "-len_control=20"]
        running.append((subprocess.Popen(command, env=fenv, stdout=subprocess.DEVNULL, stderr=log), log.name))
    for process, _ in running:
        process.wait()
    executions = 0
    for _, log in running:
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", read(log).decode("utf-8", "replace"))
        executions += int(m.group(1)) if m else 0
    stats = {"executions": executions, "corpus": len(os.listdir(corpus)), "seconds": plan["fuzz_seconds"], "crash_inputs": 0}
    for name in sorted(os.listdir(work)):
        if name.startswith("crash") or name.startswith("timeout"):
            stats["crash_inputs"] += 1
            replay = os.path.join(HERE, "replays", f"{pid}.A.txt")
            r = subprocess.run([programs["A"], "bytes", os.path.join(work, name), "--variant", "A", "--dict", dict_path, "--replay", replay], env=env, stdout=subprocess.PIPE, text=True, errors="replace")
            sys.stdout.write(r.stdout)
            if r.returncode == 1:
                return replay, stats
    return None, stats


if __name__ == "__main__":
    sys.exit(main())
