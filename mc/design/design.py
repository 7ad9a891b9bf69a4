import ast,glob,json,os,re
t=open('/verif/mc/design/DESIGN.in.md').read()
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
out=[]
for f in sorted(glob.glob('/verif/mc/checks/c[0-9]*.py')):
    pid=os.path.basename(f)[:-3].upper()
    if pid not in props: continue
    src=open(f).read(); tree=ast.parse(src); doc=ast.get_docstring(tree)
    d={}
    for n in tree.body:
        if isinstance(n,ast.Assign) and isinstance(n.targets[0],ast.Name) and n.targets[0].id in('MODEL','BOUNDS'):
            try: d[n.targets[0].id]=ast.literal_eval(n.value)
            except Exception: pass
    body=doc.split('\n',1)[1].strip() if '\n' in doc else ''
    cost=''
    ev='/verif/evidence/%s.json'%pid
    if os.path.exists(ev):
        e=json.load(open(ev))
        if e['tier']=='quick':
            c=e['coverage']; cost=' Cost: {:.0f} s; {} states, {} transitions.'.format(e['wall_s'],c['states'],c['transitions'])
    out.append('### {} {}\n\n{}\n\n* Oracle: {}.\n* Bounds (quick): {}.{}\n* Beyond the tests: {}\n'.format(pid,props[pid]['title'],body,d.get('MODEL',''),d.get('BOUNDS',{}).get('quick',''),cost,props[pid]['why_tests_cant']))
t=t.replace('@@TABLE@@','\n'.join(out))
for k in ('FALSE','SEEDED'):
    p='/verif/mc/design/%s.md'%k.lower()
    t=t.replace('@@%s@@'%k, open(p).read().strip() if os.path.exists(p) else '(to be filled in)')
open('/verif/DESIGN.md','w').write(t)
