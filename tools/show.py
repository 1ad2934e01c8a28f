import json,sys
d=json.load(open('%s/../evidence/%s.json'%(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),sys.argv[1])))
def f(o):
    if isinstance(o,dict):
        if 'configurations' in o: return o['configurations']
        for v in o.values():
            r=f(v)
            if r: return r
for c in f(d) or []:
    if len(sys.argv)>2 and not (c.get('incomplete') or c.get('not_reached') or c.get('seconds',0)>15): continue
    print(c.get('params'),c.get('paths'),c.get('seconds'),c.get('incomplete'),c.get('not_reached'))
