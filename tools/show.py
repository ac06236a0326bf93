import json,glob,sys
for f in sorted(glob.glob('/verif/replays/%s*' % (sys.argv[1] if len(sys.argv)>1 else ''))):
    d=json.load(open(f)); p=dict(d['plan']); p.pop('simple',None)
    print(f, d['class'],'|',d['detail'][:1200]); print(json.dumps(p)[:3000]); print('\n'.join(d['trace'][-int(sys.argv[2]) if len(sys.argv)>2 else -25:]))
