import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    rows.append(f"| `{i}` | {m['property']} | {m['needs'].strip().replace('|','/')} |")
print("| planted bug | caught by | needs |\n|---|---|---|\n"+"\n".join(rows))
