#!/usr/bin/env python3
"""mutate.py list            counts the single-token changes of /repo/src it knows, per file
mutate.py run OUT K N [FILTER]   tries every N-th of them, starting at K: unit tests, doc tests, then the checks

Run it inside tools/ns.sh: it changes /repo.  Each line of OUT is a JSON object: where, old, new, fate
(build, unit, doc, the id of the check that caught it, or SURVIVED)."""
import json, os, re, subprocess, sys, random

SKIP = {"music.rs", "class.rs", "parity.rs", "stage.rs", "bell.rs", "parse_cc_lib.rs"}
LIFE = ["C05", "C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10"]
HIST = ["C07", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"]


def strip(text):
    """the text with comments, strings, chars and test modules blanked"""
    out = list(text)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    i, n = 0, len(text)
    while i < n:
        if text.startswith("//", i):
            j = text.find("\n", i); j = n if j < 0 else j
            blank(i, j); i = j
        elif text.startswith("/*", i):
            j = text.find("*/", i) + 2
            blank(i, j); i = j
        elif text[i] == '"':
            j = i + 1
            while text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            blank(i, j + 1); i = j + 1
        elif text[i] == "'" and (text[i + 1] == "\\" or text[i + 2] == "'"):
            j = text.find("'", i + 2) + 1
            blank(i, j); i = j
        else:
            i += 1
    t = "".join(out)
    for m in re.finditer(r"#\[cfg\(test\)\]\s*mod", t):
        blank(m.start(), n)
        break
    return "".join(out)


RULES = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" % ", [" / "]), (r" / ", [" % "]),
    (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"(?<=[ (])!(?=[a-z])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.\.=", [".."]), (r"\.rev\(\)", [""]), (r"\.all\(", [".any("]), (r"\.any\(", [".all("]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_ok\(\)", [".is_err()"]),
    (r"\.sort\w*\(\);", [";"]), (r"\.dedup\(\);", [";"]), (r"\.chunks_exact\(", [".chunks("]),
    (r"(?<![\w.'])\d+(?![\w.'])", ["+1", "-1"]),
    (r"\bif (?!let)[^{}\n]+(?= \{)", ["if true", "if false"]),
    (r"\bwhile (?!let)[^{}\n]+(?= \{)", ["while false"]),
    (r"\bSome\(\w+\)(?=\n| \}|,\n)", ["None"]),
    (r"\bsaturating_sub\b", ["wrapping_sub"]), (r"\b(next)\(\)", ["next_back()"]), (r"\bnext_back\(\)", ["next()"]),
    (r"\bcontinue;", ["break;", "{}"]), (r"\bbreak;", ["{}"]),
    (r"\.filter\(", [".skip_while(", ".take_while("]), (r"\.take_while\(", [".filter("]), (r"\.skip_while\(", [".filter("]),
    (r"\bOrdering::Less\b", ["Ordering::Greater"]), (r"\bOrdering::Greater\b", ["Ordering::Less"]),
]


def sites():
    out = []
    for root, _, files in os.walk("/repo/src"):
        for f in sorted(files):
            if not f.endswith(".rs") or f in SKIP:
                continue
            p = os.path.join(root, f)
            text = open(p).read()
            t = strip(text)
            for rx, news in RULES:
                for m in re.finditer(rx, t):
                    for new in news:
                        nw = new
                        if new in ("+1", "-1"):
                            v = int(m.group()) + int(new)
                            if v < 0:
                                continue
                            nw = str(v)
                        if text[m.start():m.end()] != nw:
                            out.append((p, m.start(), m.end(), nw))
            # calls with two plain arguments, the arguments exchanged
            for m in re.finditer(r"\((&?(?:mut )?[\w.]+), (&?(?:mut )?[\w.]+)\)(?! ->| \{| =>)", t):
                if m.group(1) != m.group(2):
                    out.append((p, m.start(), m.end(), f"({m.group(2)}, {m.group(1)})"))
            # statements deleted
            for m in re.finditer(r"(?m)^( +)(?!let |use |pub |return|const |type |fn |impl |struct |mod |\}|\)|\.|#)([^\n{}]*;)$", t):
                prev = t[:m.start()].rstrip()
                s = m.group(2)
                if prev[-1:] in ";{}" and s.count("(") == s.count(")"):
                    out.append((p, m.start(2), m.end(2), ""))
    return out


def sh(cmd, secs, env=None):
    try:
        r = subprocess.run(["timeout", "-k", "5", str(secs), "bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        return r.returncode, r.stdout.decode(errors="replace")
    except Exception as e:
        return 99, str(e)


def main():
    s = sites()
    if sys.argv[1] == "list":
        from collections import Counter
        for f, n in Counter(x[0] for x in s).most_common():
            print(n, f)
        print(len(s))
        return
    out, k, n = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    random.Random(7).shuffle(s)
    if len(sys.argv) > 5:
        s = [x for x in s if re.search(sys.argv[5], x[0])]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d["file"], d["at"], d["new"]))
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=os.environ.get("MUT_TARGET", "/verif/.build/mut"), CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_TEST_DEBUG="0")
    rr = out + ".rr"
    os.makedirs(rr + "/evidence", exist_ok=True)
    for p, a, b, new in s[k::n]:
        if (p, a, new) in done:
            continue
        text = open(p).read()
        line = text.count("\n", 0, a) + 1
        src = text.split("\n")[line - 1].strip()
        fate = detail = ""
        try:
            open(p, "w").write(text[:a] + new + text[b:])
            rc, o = sh("cd /repo && cargo test --offline --lib -- --test-threads 4", 120, env)
            fails = re.findall(r"^test (\S+) \.\.\. FAILED", o, re.M)
            if "could not compile" in o:
                fate = "build"
            elif rc == 124 or [x for x in fails if "class::tests" not in x] or "test result" not in o:
                fate = "unit"
            if not fate:
                ps = LIFE if "method_lib" in p else HIST
                for runs in ("1500", "6000"):
                    for q in ps:
                        rc, o = sh(f"/verif/check.sh {q} --root {rr} --jobs 3" + (f" --runs {runs}" if runs else ""), 900)
                        if rc == 1:
                            fate = q + ("" if runs == "1500" else "+")
                            detail = next((l for l in o.splitlines() if l.startswith("violation")), "")[:200]
                            break
                        if rc != 0:
                            fate = f"{q} rc={rc}"; detail = o[-300:]
                            break
                    if fate:
                        break
                if not fate:
                    rc, o = sh("cd /repo && cargo test --offline --doc -- --test-threads 4", 180, env)
                    fate = "doc" if rc else "SURVIVED"
        finally:
            open(p, "w").write(text)
        with open(out, "a") as f:
            f.write(json.dumps(dict(file=p, at=a, line=line, src=src, old=text[a:b], new=new, fate=fate, detail=detail)) + "\n")


main()
