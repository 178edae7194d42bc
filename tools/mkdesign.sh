#!/bin/bash
# Refresh the seed table of DESIGN.md.
cd "$(dirname "$0")/.." && python3 - <<'P'
import subprocess,re
t=subprocess.run(["python3","tools/seedtable.py"],capture_output=True,text=True).stdout
s=open("DESIGN.md").read()
s=re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda m:"<!-- seeds -->\n"+t+"<!-- /seeds -->",s,flags=re.S)
open("DESIGN.md","w").write(s)
P
