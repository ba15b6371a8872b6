#!/usr/bin/env python3
"""print a replay file: the events up to the rejected one"""
import json,sys
j=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 1
print(j['why'],'at',j['at_event'], 'P',j['scenario']['P'], {k:v for k,v in j['scenario'].items() if k!='ops'})
ev=j['trace']['ev']
for k,e in enumerate(ev[:j['at_event']]):
    if k>=j['at_event']-n: print(k+1,json.dumps(e)[:3000])
    else: print(k+1,e['op'],{x:e[x] for x in e if x not in('op','a','v','bytes')})
