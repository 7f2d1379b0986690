import json,sys
j=json.load(open(sys.argv[1] if '/' in sys.argv[1] else '/verif/out/replays/'+sys.argv[1]+'.json'))
print(j.get('cmd'));print(j.get('what'))
for n,t in j['files'].items():
    k=t.find('/*END PRELUDE*/')
    if k<0: k=t.find('static void PL(')
    print('==',n); print(t[max(0,k):][-4000:])
