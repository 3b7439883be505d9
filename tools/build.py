#!/usr/bin/env python3
"""Builds the harness for one property: writes the build overlay and runs go build from /repo."""
import json, os, subprocess, sys
prop, work = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.environ.get("REPO", "/repo")
MOD = "github.com/dappnode/mev-sp-oracle"
# property -> (flags of the rewriter, packages rewritten)
REWRITE = {
    "C09": (["-maps"], ["oracle", "utils"]),
    "C11": (["-maps"], ["oracle", "utils"]),
    "C23": (["-maps", "-sync", "-steps"], ["oracle"]),
    "C24": (["-maps", "-sync", "-steps"], ["oracle", "api"]),
}
# properties whose check talks to fake nodes: the delays between retries are removed
FAST_RETRY = {"C30", "C28", "C20", "C29", "C21", "C22", "C24", "C25", "C26", "C27"}
rep = {}
for pk in ("vh", "vshim"):
    src = os.path.join(here, "harness", pk)
    for f in sorted(os.listdir(src)):
        if f.endswith((".go", ".s")):
            rep[os.path.join(repo, "zz_verif", pk, f)] = os.path.join(src, f)
for f in ("go.mod", "go.sum"):
    open(os.path.join(work, f), "wb").write(open(os.path.join(repo, f), "rb").read())
modfile = os.path.join(work, "go.mod")
def fast_retry():
    """Replaces retry-go by a copy whose timer does not wait."""
    import re, shutil
    mod = "github.com/avast/retry-go/v4"
    d = json.loads(subprocess.run(["go", "list", "-m", "-json", mod], cwd=repo, stdout=subprocess.PIPE, check=True).stdout)["Dir"]
    dst = os.path.join(work, "retry")
    shutil.copytree(d, dst, dirs_exist_ok=True)
    subprocess.run(["chmod", "-R", "u+w", dst], check=True)
    p = os.path.join(dst, "retry.go")
    s = open(p).read()
    assert s.count("return time.After(d)") == 1
    open(p, "w").write(s.replace("return time.After(d)", "_ = d\n\treturn time.After(time.Microsecond)"))
    with open(modfile, "a") as f:
        f.write("\nreplace %s => %s\n" % (mod, dst))
if prop in FAST_RETRY:
    fast_retry()
def rewrite(flags, pkgs):
    """Rewrites the packages (see harness/rewrite) and adds them to the overlay."""
    tool = os.path.join(work, "rewrite")
    env = dict(os.environ, GOFLAGS="", GO111MODULE="off")
    r = subprocess.run(["go", "build", "-o", tool, os.path.join(here, "harness", "rewrite", "main.go")], cwd=work, env=env)
    if r.returncode:
        sys.exit(r.returncode)
    out = os.path.join(work, "rw")
    os.makedirs(out, exist_ok=True)
    r = subprocess.run([tool, "-modfile", modfile, "-out", out, "-shim", MOD + "/zz_verif/vshim"] + flags + [p if p == "." else "./" + p for p in pkgs], cwd=repo, stdout=subprocess.PIPE)
    if r.returncode:
        sys.exit(r.returncode)
    rep.update(json.loads(r.stdout))
if prop in REWRITE:
    rewrite(*REWRITE[prop])
# properties whose check runs the daemon itself: package main with scheduling points
DAEMON = {"C30", "C21", "C28", "C22"}
if prop in DAEMON:
    rewrite(["-sleep", "-steps"], ["."])
ov = os.path.join(work, "overlay.json")
json.dump({"Replace": rep}, open(ov, "w"))
if prop in DAEMON:
    r = subprocess.run(["go", "build", "-modfile", modfile, "-overlay", ov, "-o", os.path.join(work, "daemon"), "."], cwd=repo)
    if r.returncode:
        sys.exit(r.returncode)
r = subprocess.run(["go", "build", "-modfile", modfile, "-overlay", ov, "-o", os.path.join(work, "vh"), "./zz_verif/vh"], cwd=repo)
sys.exit(r.returncode)
