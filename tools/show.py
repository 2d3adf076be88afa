import json,sys
d=json.load(open(sys.argv[1]))
for k,v in d.items():
    print(k,':',str(v)[:1200])
