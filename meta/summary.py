import json,sys,collections,re
pid=sys.argv[1]; excl=sys.argv[2].split(',') if len(sys.argv)>2 else []
c=collections.Counter(); ex={}; kinds=collections.defaultdict(collections.Counter)
for l in open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','replays',pid,'all.jsonl')):
    r=json.loads(l); m=r['message']; js=json.dumps(r['case'])
    if any(('"%s"'%e) in js for e in excl if e): continue
    ops=r['case'][1] if isinstance(r['case'],list) and len(r['case'])>1 else ''
    def shape(o):
        if isinstance(o,list) and o and isinstance(o[0],str): 
            return o[0]+('('+','.join(shape(x) for x in o[1])+')' if o[0]=='tuple' else '')
        if isinstance(o,list): return [shape(x) for x in o]
        return ''
    sig=re.sub(r'-?\d+(\.\d+)?','N',m); sig=re.sub(r'(N, )+N','N',sig); sig=re.sub(r'\[[\[\]N, (){}:\'a-z]*\]','[]',sig)[:110]
    k=(str(shape(ops)) if '-s' not in sys.argv else '',sig)
    c[k]+=1
    u=r['case'][0]; kinds[k][str(u[-1]) if isinstance(u,list) and u else str(u)]+=1
    if k not in ex or len(js)<len(json.dumps(ex[k][0])): ex[k]=(r['case'],m)
for k,n in c.most_common(int(sys.argv[3]) if len(sys.argv)>3 else 40):
    print(n, ' '.join(kinds[k])[:40], '|', json.dumps(ex[k][0])[:130], '|', ex[k][1][:150].replace(chr(10),' '))
print(sum(c.values()), len(c))
