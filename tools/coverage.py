"""API functions reached by no property check (development aid; reads the evidence of the last runs)"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from engine import build as B
seen = set()
for f in glob.glob(V + '/evidence/C*.json'):
    d = json.load(open(f))
    if d['property'] >= 'C07' and d['property'] not in ('C30',): seen |= set(x.replace('w_glm','glm') for x in d['coverage'].get('function_names', []))
have = B.source_names()
miss = [n for n in B.API if n.startswith('glm_') and n in have and n not in seen]
print(len(miss)); print(' '.join(miss))
