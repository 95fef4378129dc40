import json, sys
for l in list(open('/verif/evidence/replay/%s.jsonl' % sys.argv[1]))[:int(sys.argv[2]) if len(sys.argv) > 2 else 8]:
    v = json.loads(l); s = dict(v['scenario'])
    def short(x):
        if isinstance(x, dict) and 'name' in x and 'e' in x: return x['name'] or ('U', x['e'], x['b'])
        if isinstance(x, list): return [short(y) for y in x]
        return x
    steps = s.pop('steps')
    print('##', v['module'], v['clause'], {k: short(x) for k, x in s.items()}, '| steps', str(steps)[:300])
    for o in v['observed']:
        vals=[]
        for n in o['v'][:8]:
            vals.append("%.10g" % (n[0] * float("0." + "".join("%04d" % k for k in n[2])) * 10.0 ** (4 * n[1])))
        print('   ', o['st'], o.get('ex'), o['sh'], vals, 'mut', o.get('mut'), str(o.get('x', ''))[:300])
