"""Which lines does each planted bug change: the original repository's, or ones our fix commits added?"""
import re, subprocess, glob, os
base = "10b21bc"
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f = None; n = 0; own = orig = adds = 0
    for l in open(p):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = subprocess.run(["git","-C","/repo","blame","-l","-L",f"{n},{n}",base+"..HEAD","--",f],stdout=subprocess.PIPE,text=True).stdout
            if b.startswith("^"): orig += 1
            else: own += 1
            n += 1
        elif l.startswith("+") and not l.startswith("+++"): adds += 1
        elif l.startswith(" "): n += 1
    print(os.path.basename(os.path.dirname(p)), "orig", orig, "own", own, "adds", adds)
