#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE]     run.py --setup

Builds the model checker against the working tree of /repo (several builds: node width 4 through a guarded hook, and
the shipped width 64), lets it enumerate, and reports.  Exit 0: held on everything explored; 1: violated, with a line
VIOLATION property=<id> replay=<path>; 2: no answer."""
import json, os, re, resource, shutil, signal, subprocess, sys, time
import rewrite
HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(HERE, "out")
SLOT = 1 << 16
GB = 1 << 30

# name -> (crate, cfgs, features, profile, cfgs/features that may be dropped when a hook does not compile any more)
BUILDS = {
    "w4": ("mc", ["librrb_verif_width4"], [], "release", "tree"),
    # width 4 as users run it: a side effect inside a debug assertion, or arithmetic that wraps, shows only here
    "w4n": ("mc", ["librrb_verif_width4"], [], "ship", "tree"),
    "w64": ("mc", [], [], "ship", "tree"),
    "ring4": ("mc", ["librrb_verif_width4"], ["ring"], "release", "ring"),
    "ring8": ("mc", ["librrb_verif_width8"], ["ring"], "release", "ring"),
    "ring64": ("mc", [], ["ring"], "ship", "ring"),
    # the feature of the library that replaces the ring buffer's destructor; needs the nightly compiler
    "w4d": ("mc", ["librrb_verif_width4"], ["dangle"], "release", "tree"),
    "ring4d": ("mc", ["librrb_verif_width4"], ["ring", "dangle"], "release", "ring"),
    "sizes4": ("mc", ["librrb_verif_width4"], ["sizes"], "release", "sizes"),
    "sizes64": ("mc", [], ["sizes"], "ship", "sizes"),
    # the shared-pointer crate is replaced by one that counts
    "work4": ("work", ["librrb_verif_width4"], ["work"], "ship", "tree"),
    "work64": ("work", [], ["work"], "ship", "tree"),
    "conc": ("conc", ["librrb_verif_width4"], [], "release", "std"),
}
SEQ = ["w4", "w4n", "w64"]
ENGINES = {**{"C%02d" % i: SEQ for i in range(1, 17)}, "C21": SEQ, "C22": SEQ,
           "C12": SEQ + ["w4d"], "C17": ["conc"], "C18": ["conc"], "C19": ["ring4", "ring8", "ring64", "ring4d"], "C20": ["sizes4", "sizes64"], "C24": ["work4", "work64"]}
EXHAUSTIVE = "every case within the bounds listed was executed"


def say(*a):
    print(*a, flush=True)


def cargo(name, with_hook):
    crate, cfgs, feats, profile, hook = BUILDS[name]
    cfgs, feats = list(cfgs), list(feats)
    if hook and with_hook:
        cfgs.append("librrb_verif_" + hook)
        if hook not in feats and hook != "std":
            feats.append(hook)
    elif hook:
        feats = [f for f in feats if f != hook]
    # one target folder per set of flags: cargo would rebuild everything when they change
    tgt = os.path.join(TARGET, crate + "-" + (re.sub("librrb_verif_", "", "-".join(sorted(cfgs))) or "plain") + ("-n" if name == "w4n" else "-d" if "dangle" in feats else ""))
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="nightly" if "dangle" in feats else "stable", RUSTC_WRAPPER="",
               RUSTFLAGS=" ".join("--cfg " + c for c in cfgs), CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "--profile", profile]
    if feats:
        cmd += ["--features", ",".join(feats)]
    cwd = os.path.join(HERE, crate)
    if hook == "std":
        # the hook here is a copy of the sources in which the standard library's atomics and cells are the explorer's
        if with_hook and not rewrite.needed("/repo"):
            env["RUSTFLAGS"] = " ".join("--cfg " + c for c in cfgs[:-1])
            tgt = env["CARGO_TARGET_DIR"] = tgt.replace("-std", "")
        elif with_hook:
            cwd = rewrite.copy("/repo", cwd, os.path.join(TARGET, "conc-copy"))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, os.path.join(tgt, profile, crate)


def build(names):
    """name -> binary; all in parallel, then without the hook those that failed."""
    bins, failed, notes = {}, [], []
    for with_hook in (True, False):
        todo = [n for n in (names if with_hook else failed)]
        failed = []
        procs = [(n, *cargo(n, with_hook)) for n in todo]
        for n, p, b in procs:
            log = p.communicate()[0]
            if p.returncode == 0:
                bins[n] = b
                if not with_hook:
                    notes.append("conc: the atomics and cells of this tree could not be replaced; explored with them as they are" if n == "conc" else "%s: the %s hook does not compile against this tree; explored without it" % (n, BUILDS[n][4]))
            elif with_hook and BUILDS[n][4]:
                failed.append(n)
            elif "dangle" in BUILDS[n][2]:
                notes.append("%s: the feature may_dangle does not compile; not explored" % n)
            else:
                say("build of %s failed:\n%s" % (n, log[-4000:]))
                sys.exit(2)
    return bins, notes


def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb * GB, gb * GB))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def replay(binary, prop, tier, case, timeout=120):
    """None: the case passes; otherwise what goes wrong."""
    try:
        p = subprocess.run([binary, prop, "--tier", tier, "--threads", "1", "--replay", case], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, preexec_fn=limits(12), errors="replace")
    except subprocess.TimeoutExpired:
        return "does not terminate (%d s)" % timeout
    last = (p.stdout.strip().splitlines() or [""])[-1]
    if p.returncode == 0:
        return None
    if p.returncode == 1:
        return last
    if p.returncode < 0 or p.returncode in (97, 134, 139):
        sig = -p.returncode
        try:
            nm = signal.Signals(sig).name
        except ValueError:
            nm = "exit %d" % p.returncode
        tail = " ".join(p.stderr.strip().splitlines()[-2:])[:200]
        return "the process dies (%s) %s" % (nm, tail)
    return "?" + last


def slots(path):
    out = []
    try:
        data = open(path, "rb").read()
    except OSError:
        return out
    for i in range(0, len(data), SLOT):
        b = data[i:i + SLOT].split(b"\0")[0].decode(errors="replace")
        if b:
            out.append(b)
    return out


def known(prop):
    k = set()
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS")):
            m = re.match(r"finding: property=(\S+) engine=(\S+) part=\[(.*?)\] case=\[(.*?)\]", l)
            if m and m.group(1) == prop:
                k.add(m.groups()[1:])
    except OSError:
        pass
    return k


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.n = prop, tier, 0

    def violation(self, engine, part, case, msg):
        self.n += 1
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, "%s-%d.json" % (self.prop, self.n))
        json.dump({"property": self.prop, "engine": engine, "tier": self.tier, "part": part, "case": case, "what": msg,
                   "replay": "python3 run.py %s --replay %s" % (self.prop, path)}, open(path, "w"), indent=1)
        say("%s, %s: %s\n  case: %s" % (engine, part, msg, case[:1500]))
        say("VIOLATION property=%s replay=%s" % (self.prop, path))


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        only = a[1:] or list(BUILDS)
        build(only)
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if "--replay" in a:
        r = json.load(open(a[a.index("--replay") + 1]))
        bins, _ = build([r["engine"]])
        m = replay(bins[r["engine"]], prop, r["tier"], r["part"] + "\t" + r["case"], 600)
        say(m or "passes")
        return 1 if m else 0
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    bins, notes = build(ENGINES[prop])
    names = [n for n in ENGINES[prop] if n in bins]
    t_build = time.time() - t0
    rep = Report(prop, tier)
    parts, findings = [], []
    kn = known(prop)
    hard = 780 if tier == "quick" else 6 * 3600
    budget = 240 if tier == "quick" else 3600
    for n in names:
        slot, out = os.path.join(OUT, "%s-%s.slots" % (prop, n)), os.path.join(OUT, "%s-%s.out" % (prop, n))
        if os.path.exists(out):
            os.unlink(out)
        left = max(30, hard - (time.time() - t0))
        p = subprocess.Popen([bins[n], prop, "--tier", tier, "--slots", slot, "--out", out, "--hang", "25" if tier == "quick" else "120",
                              "--budget", str(budget)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits(26), errors="replace")
        try:
            so, se = p.communicate(timeout=left)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            say(so[-1500:], se[-3000:])
            say("no answer: %s did not finish in time" % n)
            return 2
        if se.strip():
            say("\n".join(l[:300] for l in se.strip().splitlines()[-40:]))
        if p.returncode in (0, 1) and os.path.exists(out):
            d = json.load(open(out))
            for q in d["parts"]:
                q["engine"] = n
                parts.append(q)
                for case, msg in q.get("findings", []):
                    findings.append((n, q["part"], case, msg))
            v = d["violation"]
            if v:
                # replayed in a process of its own: the case alone must show it
                m = replay(bins[n], prop, tier, v["part"] + "\t" + v["case"])
                if m is None:
                    say("note: the case passes when replayed alone; it is reported as first seen")
                rep.violation(n, v["part"], v["case"], v["msg"])
                break
        else:
            # the process died or hung: the cases being explored are replayed, each in a process of its own
            confirmed = False
            for s in slots(slot):
                m = replay(bins[n], prop, tier, s, 60)
                if m and not m.startswith("?"):
                    part, _, case = s.partition("\t")
                    rep.violation(n, part, case, m)
                    confirmed = True
                    break
            if not confirmed:
                say("no answer: %s ended with %d and no case reproduces it" % (n, p.returncode))
                say(so[-1500:])
                return 2
            break
    for (n, part, case, msg) in findings:
        if (n, part, case) in kn:
            say("KNOWN-FINDING: property=%s %s, %s, %s: %s" % (prop, n, part, case, msg))
        else:
            rep.violation(n, part, case, msg)
    tot = lambda k: sum(q[k] for q in parts)
    cov = {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("traces"),
           "evaluations": tot("evaluations"),
           "samples": [s for q in parts for s in q["samples"][:3]][:24] or ["none"],
           "bounds": [b for q in parts for b in q["bounds"]],
           "parts": [{k: q[k] for k in ("engine", "part", "states", "transitions", "evaluations", "traces", "counters", "max", "capped", "wall_s")} for q in parts],
           "exhaustive": bool(parts) and not any(q["capped"] for q in parts),
           "known_findings": ["%s %s %s: %s" % f for f in findings if f[:3] in kn],
           "notes": notes, "build_s": round(t_build, 1)}
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
               "assumptions": ["the bounds listed; every execution explored is one of the implementation itself, compared with a plain list model"],
               "wall_s": round(time.time() - t0, 2), "violations": rep.n}, open(ev_path, "w"), indent=1)
    for x in notes:
        say("note:", x)
    say("%s %s: %d states, %d transitions, %d evaluations, %.0f s, %d violations" % (prop, tier, cov["states"], cov["transitions"], cov["evaluations"], time.time() - t0, rep.n))
    return 1 if rep.n else 0


if __name__ == "__main__":
    sys.exit(main())
