import json,sys
for f in sys.argv[1:]:
    d=json.load(open(f)); x=d['difference']
    print('##',f,d['case'],x['what'],'event',x['event'])
    o=x['observed']
    if not isinstance(o,dict):
        print('  expected',x['expected'],'observed',o); ev=d['trace'][x['event']-1]; print('  ',ev.get('stderr'), {k:str(v)[:200] for k,v in ev.items()}); continue
    e,s=o['expected'],o['shown']
    print(len(e),len(s))
    for i in range(max(len(e),len(s))):
        a=e[i] if i<len(e) else None; b=s[i] if i<len(s) else None
        if a is None or b is None: print('  E',a,'\n  S',b); continue
        ha,hb=a['head'],b['head']
        hs=[ha, [ha[0]+' ; '+ha[1]]+ha[2:]] if len(ha)>1 else [ha]
        if hb not in hs or a['posts']!=b['posts']: print('  E',json.dumps(a),'\n  S',json.dumps(b))
