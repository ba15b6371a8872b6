"""print a C04 replay with its faults and results"""
import json,sys
for fn in sys.argv[1:]:
    j=json.load(open(fn))
    sc=j['scenario']
    print(j['why'],'at',j['at_event'],'P',sc['P'])
    ev=j['trace']['ev']
    for n,o in enumerate(sc['ops'][:j['at_event']+1]):
        o=dict(o); f=o.pop('flt',None)
        v=ev[n].get('v') if n<len(ev) else None
        print(n+1,str({k:v for k,v in o.items() if k not in('a','traces','rule','text','bytes','key')})[:170],'F=%s'%f if f else '', [(x.get('ff'),x.get('err'),str({k:y for k,y in x.items() if k not in('ff','err','data','files')})[:60]) for x in v] if v else '')
    print(j['trace'].get('abort'))
