import json,sys
d=json.load(open(sys.argv[1])); pat=sys.argv[2]
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        k=e[0]
        s+= {'*':'.*','b':'.box*'}.get(k) or {'f':'.%s','d':' as %s','i':'[_%s]'}.get(k,str(e)+'%s')%(e[1] if len(e)>1 else '')
    return s
def op(o):
    if 'c' in o: return pl(o['c'])
    if 'm' in o: return 'mv '+pl(o['m'])
    if o.get('k')=='fn': return 'fn '+o['f']['p']+('  L%d'%o['f']['l'] if 'l' in o['f'] else '')
    if o.get('k')=='const': return 'const '+json.dumps(o['v'])
    return json.dumps(o)
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&'+pl(r[1])
    if k=='disc': return 'disc '+pl(r[1])
    if k=='agg': return str(r[1])+' {'+', '.join(map(op,r[2]))+'}'
    return json.dumps(r)
for f in d['fns']:
    if pat in f['p'] and 'body' in f:
        print('=====',f['id'],f['p'],f.get('impl_trait'),[d['types'][a]['s'] for a in f.get('a',[])])
        b=f['body']
        for i,t in enumerate(b['locals']): print('  _%d: %s %s'%(i,d['types'][t]['s'],b['names'].get(str(i),'')))
        for i,x in enumerate(b['bb']):
            if x.get('cl'): continue
            print(' bb%d:'%i)
            for s in x['s']:
                if s[0]=='=': print('    ',pl(s[1]),'=',rv(s[2]))
            t=x['t']
            if t[0]=='call': print('    ',pl(t[3]),'=',op(t[1]),'(',', '.join(map(op,t[2])),') ->',t[4])
            elif t[0]=='sw': print('     switch',op(t[1]),t[2],t[3])
            else: print('    ',t)
