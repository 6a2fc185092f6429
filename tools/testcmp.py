import json,sys
a=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b['stable']); miss=st-set(a['passed'])
print('stable',len(st),'missing',len(miss)); [print(' ',m) for m in sorted(miss)][:20]
sys.exit(1 if miss else 0)
