"""python3 tools/addprop.py FILE: append the prop(...) in FILE to props.py, and regenerate"""
import subprocess, sys
f = "/verif/props.py"
s = open(f).read()
m = "# ---- more properties are appended below"
t = open(sys.argv[1]).read().strip()
s = s.replace(m, t + "\n\n" + m)
open(f, "w").write(s)
subprocess.check_call([sys.executable, f], cwd="/verif")
