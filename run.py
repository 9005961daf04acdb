#!/usr/bin/env python3
"""Checks of palc's properties.
  run.py setup                 build once
  run.py check ID              decide one property on /repo's current tree (VERIF_TIER, VERIF_SEED)
  run.py prove [FEATURES]      print the state of the proofs
"""
import json, os, re, subprocess, sys, threading, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.environ.get("VX_TARGET", os.path.join(HERE, "target"))
CONTRACTS = ["contracts/code.vc"]
GEN_CONTRACTS = ["contracts/derived.vc", "gen/gen.vc"]
VERUS_ARGS = ["--edition", "2024", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "1"]
HEADER = "#![feature(pattern)]\n#![verifier::allow(undeclared_external_trait)]\nuse vstd::prelude::*;\n"
NJOBS = os.cpu_count() or 4


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "TRYBUILD", "UPDATE_EXPECT", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "1.96.0"
    return e


def cargo(crate, target, *args):
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, target)
    return subprocess.run(["cargo", "build", "--offline", "--locked", *args], cwd=os.path.join(HERE, crate), env=e, capture_output=True, text=True)


# ---------------------------------------------------------------- proofs

class Proof:
    """One run of the verifier over the code extracted with a feature set: palc's own code, or (`gen`) the code that
    the derive macros write for the definitions of /verif/gen, against the contracts of palc's code."""

    def __init__(self, feats, gen=False):
        self.feats, self.gen = feats, gen
        self.contracts = CONTRACTS + (GEN_CONTRACTS if gen else [])
        self.dir = os.path.join(TARGET, "verus", (feats or "none") + ("-gen" if gen else ""))
        os.makedirs(self.dir, exist_ok=True)
        self.quarantine = {}     # function -> why its body could not be brought before the verifier
        self.broken = None       # why no proof could be attempted at all
        self.failed = {}         # function or lemma -> messages of its failed obligations
        self.map = []
        self.units = []
        self.lemma_at = []
        self.cmd = ""
        self.vacuous = []        # functions whose must-fail assertion did not fail
        self.guarded = 0
        self.missing, self.notes, self.mods = [], [], []
        self.wall = 0

    def name(self):
        return (self.feats or "no help") + (", derived code" if self.gen else "")

    def counted(self):
        """The functions whose obligations this run is about."""
        return [x for x in self.map if x["key"].startswith("gen::") or not self.gen]

    def lemmas(self):
        return [x for x in self.lemma_at if not self.gen or x[0] >= self.first_mod]

    def expand(self):
        """The definitions as the compiler sees them after macro expansion."""
        e = env()
        e.update(RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=os.path.join(TARGET, "gen" if self.feats else "gen-nohelp"))
        r = subprocess.run(["cargo", "rustc", "--offline", "--locked", "--lib", "-q", *([] if self.feats else ["--no-default-features"]), "--", "-Zunpretty=expanded"],
                           cwd=os.path.join(HERE, "gen"), env=e, capture_output=True, text=True)
        if r.returncode != 0 or not r.stdout:
            return "the definitions do not compile: " + r.stderr[-400:]
        open(os.path.join(self.dir, "expanded.rs"), "w").write(r.stdout)
        return None

    def assemble(self, tag="all", vacuous=False):
        code, mp = os.path.join(self.dir, tag + ".code.rs"), os.path.join(self.dir, tag + ".map.json")
        cmd = [os.path.join(TARGET, "extract/debug/palc-extract"), "--repo", REPO, "--contracts", ",".join(os.path.join(HERE, c) for c in self.contracts),
               "--features", self.feats, "--params", os.path.join(HERE, "contracts/params.txt"), "--quarantine", ";".join(self.quarantine), "--out", code, "--map", mp] + (["--vacuous", "1"] if vacuous else []) + (["--derived", os.path.join(self.dir, "expanded.rs")] if self.gen else [])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            return "extraction failed: " + r.stderr[-600:]
        pre = open(os.path.join(HERE, "contracts/prelude.rs")).read().replace("fn main(){}\n", "")
        head = HEADER + pre + "verus!{\n"
        text = open(code).read()
        if vacuous:
            text = re.sub(r"#\[verifier::rlimit\(\d+\)\]", "", text)
        out = os.path.join(self.dir, tag + ".rs")
        open(out, "w").write(head + text + "\n}\nfn main(){}\n")
        off = head.count("\n")
        m = json.load(open(mp))
        for x in m["map"]:
            x["first"] += off
            x["last"] += off
        self.map, self.notes, self.missing = m["map"], m["notes"], m["missing"]
        if self.gen:
            self.missing = [k for k in self.missing if k.startswith("gen::")]
            self.mods = re.findall(r"^pub mod (\w+) \{$", text, re.M)
            self.first_mod = off + text[:text.index("\npub mod ")].count("\n")
        # lemmas in the contract text: `// @owner C01: ...` or `// @lemma ...` before `proof fn`
        self.lemma_at, owner, depth = [], [], None
        lines = (head + text).split("\n")
        for i, l in enumerate(lines, 1):
            o = re.match(r"\s*// @owner ([C0-9 ]+)", l)
            if o:
                owner = o.group(1).split()
            f = re.match(r"\s*(?:pub )?(?:broadcast )?proof fn (\w+)", l)
            if f:
                ind = len(l) - len(l.lstrip())
                end = i
                for j in range(i, len(lines)):
                    if lines[j].startswith(" " * ind + "}") or (lines[j].startswith(" " * ind + "{") and lines[j].rstrip().endswith("}")) or (j == i - 1 and l.rstrip().endswith("}")):
                        end = j + 1
                        break
                self.lemma_at.append((i, end, f.group(1), owner))
                owner = []
        return None

    def verus(self, tag, extra=(), timeout=240):
        src = os.path.join(self.dir, tag + ".rs")
        e = env()
        e.pop("RUSTUP_TOOLCHAIN")
        args = VERUS_ARGS + ["--num-threads", "4" if self.gen else "3"] + [y for x in self.mods for y in ("--verify-module", x)]
        self.cmd = "verus " + " ".join(args) + " " + os.path.relpath(src, HERE)
        try:
            r = subprocess.run(["verus", *args, *extra, src], cwd=self.dir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, []
        diags = []
        for l in r.stderr.split("\n"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d.get("message", "").startswith("aborting due to"):
                diags.append(d)
        try:
            js = json.loads(r.stdout[r.stdout.index("{"):])
        except ValueError:
            js = None
        return js, diags

    def where(self, d):
        """The function or lemma a diagnostic is about."""
        def keys(spans, kinds):
            for s in spans:
                for x in self.map:
                    if x["kind"] in kinds and x["first"] <= s["line_start"] <= x["last"]:
                        return x["key"]
                for a, b, n, _ in self.lemma_at:
                    if a <= s["line_start"] <= b:
                        return "lemma " + n
            return None
        sp = d.get("spans", [])
        for c in d.get("children", []):
            sp = sp + c.get("spans", [])
        body = [s for s in sp if "failed" not in (s.get("label") or "")]
        return keys(body, ("verified",)) or keys(sp, ("verified",)) or keys(sp, ("decl", "quarantined", "trusted", "item"))

    def owner(self, key):
        for x in self.map:
            if x["key"] == key:
                return x["owner"]
        for _, _, n, o in self.lemma_at:
            if "lemma " + n == key:
                return o
        return []

    def run(self):
        t0 = time.time()
        if self.gen:
            self.broken = self.expand()
            if self.broken:
                return self
        for rnd in range(10):
            left = 420 - (time.time() - t0)
            if left < 30:
                self.broken = "the verifier gave no result in time"
                break
            err = self.assemble()
            if err:
                self.broken = err
                break
            js, diags = self.verus("all", timeout=min(left, 240))
            if js is None:
                self.broken = "the verifier gave no result in time" if not diags else diags[0]["message"]
                break
            res = js.get("verification-results", {})
            if res.get("verified", 0) + res.get("errors", 0) > 0 and not res.get("encountered-vir-error"):
                self.collect(js, diags)
                self.broken = None
                # Failures that say nothing about the code: lost anchors, resource limits.
                lost = {k: n for k, n in self.notes if n.startswith("LOST")}
                again = False
                for k, msgs in list(self.failed.items()):
                    why = lost.get(k) or next((m for m in msgs if "rlimit" in m or "Resource limit" in m or "loop must have a decreases" in m), None)
                    if why and not k.startswith("lemma "):
                        self.quarantine[k] = why
                        again = True
                if not again:
                    break
                continue
            # The text did not reach the solver: set aside the functions it complains about.
            bad = {}
            for d in diags:
                k = self.where(d)
                if k and not k.startswith("lemma ") and k not in self.quarantine:
                    bad.setdefault(k, d["message"])
            known = {x["key"] for x in self.map if x["kind"] == "verified"}
            bad = {k: v for k, v in bad.items() if k in known}
            if not bad:
                self.broken = "not in the verifier's language: " + (diags[0]["message"] if diags else "?")
                break
            self.quarantine.update(bad)
        else:
            self.broken = self.broken or "not in the verifier's language"
        self.wall = time.time() - t0
        return self

    def collect(self, js, diags):
        self.failed = {}
        for d in diags:
            k = self.where(d) or "?"
            lab = "; ".join(s.get("label") or "" for s in d.get("spans", []) if s.get("label"))
            src = " ".join(t["text"].strip() for s in d.get("spans", []) if s.get("is_primary") for t in s.get("text", []))[:400]
            self.failed.setdefault(k, []).append(f"{d['message']} ({lab}): {src}")
        self.res = js["verification-results"]
        mods = js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", [])
        self.units = [(f["function"], f["mode:"], f["time-micros"], f["success"]) for m in mods for f in m["function-breakdown"]]
        self.smt_ms = js.get("times-ms", {}).get("smt", {}).get("total", 0)

    def vacuity(self):
        """Every verified function gets an assertion at its start that must fail."""
        if self.broken or self.failed:
            return self
        p = Proof(self.feats, self.gen)
        p.quarantine = self.quarantine
        if p.assemble("vacuous", vacuous=True):
            return self
        js, diags = p.verus("vacuous", ("--rlimit", "2"))
        hit = set()
        for d in diags:
            # No proof of `false` within the limit.
            if "rlimit" in d["message"] or "Resource limit" in d["message"]:
                hit.add(p.where(d))
            for s in d.get("spans", []):
                for x in p.map:
                    if x["first"] <= s["line_start"] <= x["last"] and any("assert(false)" in t["text"] for t in s.get("text", [])):
                        hit.add(x["key"])
        want = {x["key"] for x in p.counted() if x["kind"] == "verified"}
        self.guarded = len(hit & want)
        self.vacuous = sorted(want - hit)
        return self


def assumptions():
    """A mechanical scan of everything that is assumed and not proved."""
    out = {}
    for f in ["contracts/prelude.rs"] + CONTRACTS + GEN_CONTRACTS:
        t = open(os.path.join(HERE, f)).read()
        out.setdefault("assumed contracts of std and os_str_bytes", []).extend(re.sub(r"\s+", " ", m).strip() for m in re.findall(r"assume_specification(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", t))
        out.setdefault("axioms", []).extend(re.findall(r"axiom fn (\w+)", t))
        out.setdefault("bodies not verified (external_body)", []).extend(re.findall(r"#\[verifier::external_body\]\s*(?:pub )?((?:proof )?(?:fn|struct) \w+)", t))
        out.setdefault("uninterpreted functions", []).extend(re.findall(r"uninterp spec fn (\w+)", t))
        out.setdefault("assume/admit", []).extend(re.findall(r"\b(?:assume|admit)\([^)]*\)", t))
    cur = None
    for f in CONTRACTS + GEN_CONTRACTS:
        for l in open(os.path.join(HERE, f)):
            if l.startswith("@fn "):
                cur = l[4:].strip()
            if l.startswith("@trusted"):
                out.setdefault("functions of palc whose contract is assumed", []).append(cur)
    return out


# ---------------------------------------------------------------- search for failing inputs

class Search:
    def __init__(self, help_on, seed, scale):
        self.help, self.seed, self.scale = help_on, seed, scale
        self.target = "corpus" if help_on else "corpus-nohelp"
        self.error = None
        self.bad, self.stats = [], []
        self.bin = os.path.join(TARGET, self.target, "release/palc-corpus")

    def build(self):
        r = cargo("corpus", self.target, "--release", *([] if self.help else ["--no-default-features"]))
        if r.returncode != 0:
            m = [l for l in r.stderr.split("\n") if l.startswith("error")]
            self.error = "\n".join(m[:8]) or r.stderr[-800:]
            self.full_error = r.stderr
        return self

    def run(self):
        if self.error:
            return self
        r = subprocess.run([self.bin, "all", "--jobs", str(NJOBS), "--seed", str(self.seed), "--scale", str(self.scale)], capture_output=True, text=True, errors="replace")
        for l in r.stdout.split("\n"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d["t"] == "stats":
                self.stats.append(d)
            else:
                if not d.get("tags"):
                    d["tags"] = ["C12"]
                if d["t"] == "crash":
                    d["why"] = "crash: " + d["why"]
                self.bad.append(d)
        return self


def replay_text(prop, s, d, extra=""):
    cmd = f"{os.path.relpath(s.bin, HERE)} one {d['cli']} " + " ".join(d["hex"])
    return (f"property {prop}\ndefinition {d['cli']} (corpus/src/clis.rs), help feature {'on' if s.help else 'off'}\n"
            f"words {d['argv']}\nbreaks {' '.join(d['tags'])}\n{d['why']}\n\nreplay, in /verif after `python3 run.py setup`:\n  {cmd}\n{extra}")


def known():
    path = os.path.join(HERE, "known-findings.json")
    return json.load(open(path)).get("findings", []) if os.path.exists(path) else []


def is_known(prop, s, d):
    for k in known():
        if k["property"] == prop and k.get("cli") == d["cli"] and k.get("hex") == d["hex"] and k.get("help", True) == s.help:
            return k
    return None


# ---------------------------------------------------------------- one check

CFG = json.load(open(os.path.join(HERE, "checks.json")))


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CFG[prop]
    scale = cfg.get("scale", 1.0) * (1.0 if tier == "quick" else 12.0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay_dir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)

    helps = [True] + ([False] if cfg.get("nohelp") or tier == "thorough" else [])
    searches = [Search(h, seed, scale) for h in helps]
    proofs = []
    ext_error = []

    def prove():
        r = cargo("extract", "extract")
        if r.returncode != 0:
            ext_error.append(r.stderr[-1500:])
            return
        ps = [Proof(f) for f in ("help", "")] + ([Proof(f, True) for f in (("help", "") if cfg.get("nohelp") or tier != "quick" else ("help",))] if cfg.get("gen") else [])
        ts = [threading.Thread(target=lambda p=p: p.run().vacuity() if tier != "quick" or not p.gen else p.run()) for p in ps]
        [t.start() for t in ts]
        [t.join() for t in ts]
        proofs.extend(ps)
    th = threading.Thread(target=prove)
    th.start()
    bs = [threading.Thread(target=s.build) for s in searches]
    [b.start() for b in bs]
    [b.join() for b in bs]
    for s in searches:
        s.run()
    th.join()
    if ext_error:
        print("the extractor does not build:\n" + ext_error[0])
        return 2
    for s in searches:
        if s.error:
            print("the definitions do not compile against this tree:\n" + s.error)

    # obligations
    mine = [(p, k, m) for p in proofs for k, m in p.failed.items() if prop in p.owner(k)]
    hits = [(s, d) for s in searches for d in s.bad if prop in d["tags"]]
    if mine and not hits and not any(s.error for s in searches) and tier == "quick":
        # A failed obligation: look harder for an input.
        for s in searches:
            s2 = Search(s.help, seed + 1, scale * 4).run()
            s.stats += s2.stats
            s.bad += s2.bad
        hits = [(s, d) for s in searches for d in s.bad if prop in d["tags"]]

    lines, rc, fresh = [], 0, []
    for s, d in hits:
        k = is_known(prop, s, d)
        if k:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            fresh.append((s, d))
    nviol = 0
    proof_log = ""
    if mine:
        proof_log = "\nobligations that are not discharged:\n" + "\n".join(f"  [{p.name()}] {k}\n" + "\n".join("      " + x for x in m) for p, k, m in mine) + "\n"
    if fresh:
        s, d = min(fresh, key=lambda x: (x[1]["t"] == "crash", sum(map(len, x[1]["hex"])), len(x[1]["hex"])))
        path = os.path.join(replay_dir, f"{prop}.txt")
        open(path, "w").write(replay_text(prop, s, d, proof_log))
        lines.append(f"{d['cli']}: {d['argv']}: {d['why']}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        rc, nviol = 1, len(fresh)
    elif mine:
        path = os.path.join(replay_dir, f"{prop}.txt")
        open(path, "w").write(f"property {prop}\nno failing input was found in {sum(x['cases'] for s in searches for x in s.stats)} command lines\n{proof_log}\nverifier command: {mine[0][0].cmd}\n")
        lines.append("not discharged: " + ", ".join(sorted({k for _, k, _ in mine})))
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        rc, nviol = 1, len(mine)

    evidence(prop, cfg, tier, seed, proofs, searches, mine, nviol, time.time() - t0)
    for l in lines:
        print(l)
    if rc == 0:
        broken = [s for s in searches if s.error]
        if broken and all(p.broken for p in proofs):
            return 2
        if broken:
            print("no search was possible")
            return 2
        ob = summary(prop, proofs)
        print(f"{prop}: {ob['discharged']}/{ob['obligations']} obligations discharged, {sum(x['tags'].get(prop, 0) for s in searches for x in s.stats)} distinct command lines, {time.time() - t0:.0f} s")
    return rc


def summary(prop, proofs):
    n = d = 0
    fns, aside, lemmas = {}, {}, {}
    for p in proofs:
        tag = p.name()
        for x in p.counted():
            if prop not in x["owner"] or x["kind"] == "decl":
                continue
            n += 1
            if x["kind"] == "trusted":
                aside[x["key"]] = "contract assumed"
                n -= 1
            elif p.broken or x["kind"] == "quarantined" or x["key"] in p.failed:
                aside[x["key"] + f" [{tag}]"] = p.broken or p.quarantine.get(x["key"]) or "obligation failed"
            else:
                d += 1
                fns.setdefault(x["key"], "written by the derive macros" if x["key"].startswith("gen::") else f"{x['file']}:{x['line']}")
        for _, _, name, o in p.lemmas():
            if prop in o:
                n += 1
                if not p.broken and "lemma " + name not in p.failed:
                    d += 1
                    lemmas[name] = True
        for k in p.missing:
            aside[k + f" [{tag}]"] = "not in the tree"
    return dict(obligations=n, discharged=d, fns=fns, aside=aside, lemmas=sorted(lemmas))


def evidence(prop, cfg, tier, seed, proofs, searches, mine, nviol, wall):
    ob = summary(prop, proofs)
    a = assumptions()
    samples = []
    for s in searches:
        for x in s.stats:
            if prop in x["samples"] and len(samples) < 6:
                samples.append(f"{x['cli']}: {x['samples'][prop]}")
    level = cfg["level"]
    cov = {
        "obligations": ob["obligations"], "discharged": ob["discharged"],
        "checker_cmd": "; ".join(p.cmd for p in proofs),
        "trusted_base": [f"{k}: {', '.join(v)}" for k, v in a.items() if v] + ["Verus 0.2026.09.13 and Z3", "the extractor /verif/extract (rewrites listed in DESIGN.md)", "rustc"],
        "functions_under_contract": ob["fns"], "property_lemmas": ob["lemmas"],
        "set_aside_this_run": ob["aside"],
        "whole_run": [{"run": p.name(), "verified": getattr(p, "res", {}).get("verified"), "errors": getattr(p, "res", {}).get("errors"),
                       "solver_ms": getattr(p, "smt_ms", None), "reachable_preconditions": p.guarded, "unreachable": p.vacuous, "not_attempted": p.broken, "set_aside": p.quarantine} for p in proofs],
        "bounded_search": {
            "rule": "definitions of /verif/corpus run against an independent reading of the words; all sequences up to a length over each definition's vocabulary, then random longer ones; non-trivial: a distinct command line on which this property decides a step",
            "evaluations": sum(x["cases"] for s in searches for x in s.stats),
            "distinct_nontrivial": sum(x["tags"].get(prop, 0) for s in searches for x in s.stats),
            "definitions": sum(1 for s in searches for x in s.stats), "mismatches": sum(1 for s in searches for d in s.bad if prop in d["tags"]),
        },
        "samples": samples,
        "bounded": cfg["bounded"],
    }
    cov["evaluations"] = cov["bounded_search"]["evaluations"]
    cov["distinct_nontrivial"] = cov["bounded_search"]["distinct_nontrivial"]
    cov["rule"] = cov["bounded_search"]["rule"]
    if level == "other":
        cov["explanation"] = cfg["bounded"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumes", []) + ["machine integers are bounded as in Rust; overflow is an obligation", "memory allocation does not fail"],
          "wall_s": round(wall, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


def main():
    os.chdir(HERE)
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        for c, t, x in (("extract", "extract", []), ("corpus", "corpus", ["--release"]), ("gen", "gen", []), ("gen", "gen-nohelp", ["--no-default-features"])):
            r = cargo(c, t, *x)
            if r.returncode:
                print(r.stderr[-3000:])
                return 1
        return 0
    if a[:1] == ["check"] and len(a) == 2:
        return check(a[1])
    if a[:1] == ["prove"]:
        r = cargo("extract", "extract")
        if r.returncode:
            print(r.stderr[-3000:])
            return 2
        if a[1:2] == ["params"]:
            subprocess.run([os.path.join(TARGET, "extract/debug/palc-extract"), "--repo", REPO, "--contracts", ",".join(os.path.join(HERE, c) for c in CONTRACTS), "--features", "help",
                            "--out", "/dev/null", "--map", "/dev/null", "--write-params", os.path.join(HERE, "contracts/params.txt")], check=True)
            return 0
        for f in a[1:] or ["help", "", "help-gen", "-gen"]:
            p = Proof(f.removesuffix("-gen"), f.endswith("-gen")).run().vacuity()
            print(json.dumps({"run": p.name(), "broken": p.broken, "failed": p.failed, "quarantine": p.quarantine, "missing": p.missing, "results": getattr(p, "res", None), "vacuous": p.vacuous, "guarded": p.guarded,
                              "smt_ms": getattr(p, "smt_ms", None), "lost": [n for n in p.notes if n[1].startswith("LOST")], "wall": p.wall}, indent=1))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
