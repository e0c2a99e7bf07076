import json,sys
# usage: addfix.py P19,P28 <hash> text
p="known_findings.json"; d=json.load(open(p))
for q in sys.argv[1].split(","):
    d.append({"property":q,"status":"fixed","line":f"fixed: property={q} {sys.argv[2]} {sys.argv[3]}"})
open(p,"w").write("[\n"+",\n".join(" "+json.dumps(e) for e in d)+"\n]\n")
