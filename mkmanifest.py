import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes=json.load(open('/verif/levels.json')) if __import__('os').path.exists('/verif/levels.json') else {}
m={'version':1,'setup_cmd':'bash setup.sh','checks':[],'not_applicable':[]}
for p in props:
    i=p['id']; n=notes.get(i,{})
    m['checks'].append({'property':i,'quick_cmd':f'python3-vt check.py {i}','thorough_cmd':f'VERIF_TIER=thorough python3-vt check.py {i}',
      'evidence_file':f'evidence/{i}.json','technique':n.get('technique','contract-based deductive verification of the MIR rustc compiles; bounded replay of the real code as stand-in'),
      'level':n.get('level','exploration'),'level_note':n.get('note','bounded stand-in only at this milestone')})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
