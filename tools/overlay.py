"""Build a cargo package directory that links to everything in /repo's root and
holds a Cargo.toml from which the git dependencies (not fetchable offline) are
left out.  The sources compiled are /repo's current working tree, through links."""
import os, re, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = sys.argv[1]
KEEP = {"Cargo.toml", "Cargo.lock"}
SKIP = KEEP | {".git", ".gitignore", "target"}
text = open(f"{REPO}/Cargo.toml").read()
for name in re.findall(r"^([\w-]+)\s*=\s*\{[^}\n]*\bgit\s*=[^\n]*\n", text, re.M):
    n = re.escape(name)
    text = re.sub(rf"^{n}\s*=\s*\{{[^\n]*\bgit\s*=[^\n]*\n", "", text, flags=re.M)
    text = re.sub(rf'"(dep:{n}|{n}\??/[^"\n]+)"\s*,?', "", text)
def write(path, new):
    if not os.path.exists(path) or open(path).read() != new:
        open(path, "w").write(new)
os.makedirs(OUT, exist_ok=True)
write(f"{OUT}/Cargo.toml", text)
want = {e for e in os.listdir(REPO) if e not in SKIP}
for e in os.listdir(OUT):
    p = f"{OUT}/{e}"
    if os.path.islink(p) and (e not in want or os.readlink(p) != f"{REPO}/{e}"):
        os.unlink(p)
for e in want:
    if not os.path.lexists(f"{OUT}/{e}"):
        os.symlink(f"{REPO}/{e}", f"{OUT}/{e}")
