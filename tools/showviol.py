"""showviol.py FILE [n per clause] [max chars of the case]: print violations grouped by clause."""
import json,sys
n=int(sys.argv[2]) if len(sys.argv)>2 else 2
mx=int(sys.argv[3]) if len(sys.argv)>3 else 0
seen={}
for v in json.load(open(sys.argv[1])):
    k=v['clause']; seen[k]=seen.get(k,0)+1
    if seen[k]>n: continue
    c=v['case']; print(k,'|',v['detail'][:500],'|',c.get('id'),c.get('key'),c.get('kind'),c.get('trace','')[-400:])
    if mx and 'm' in c:
        m=c['m']
        for s in m['subs']: print('  ',s['kind'],s['path'],s['prom'])
        for i,x in enumerate(m['vars']): print('    ',i+1,x['comp'],x['name'],x['io'],x['sc'],x['sized'],x['shape'],x['unit'],x['val'])
        for x in m['conns']: print('    conn',x)
        print('  order',m['order'])
        for e in c['ev'][:4]: print('   ev',json.dumps(e)[:300])
    elif mx: print(json.dumps({a:b for a,b in c.items() if a!='trace'})[:mx])
