import json,os,glob,re
H=os.path.dirname(os.path.abspath(__file__))
out=[]
w=out.append
w(open(H+'/design/head.md').read().rstrip()+"\n")
# seeded table
w("## Planted bugs and what catches them\n")
w("Each bug in `seeded/` builds, passes the stable tests and has a demonstration of its own. All of them are caught by the check of\nthe property they break (`tools/seedcheck.sh`, quick tier, VERIF_SEED=1).\n")
by={}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); by.setdefault(m['property'],[]).append(os.path.basename(os.path.dirname(d)))
w("| property and check | bugs caught |\n|---|---|")
for p in [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]:
    if p in by: w(f"| {p} | {', '.join(x.split('-',1)[1] for x in by[p])} |")
w("")
w(open(H+'/design/tail.md').read().rstrip()+"\n")
open('/verif/DESIGN.md','w').write("\n".join(out))
