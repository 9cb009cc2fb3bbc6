import json, sys
for p in sys.argv[1:]:
    d=json.load(open(f'/verif/evidence/{p}.json'))['coverage']['clauses']
    for k,v in d.items(): print(p,k,v['evaluations'],v['distinct_nontrivial'],v['rejected'],v['labels'])
