import json,sys
pid,tech,note=sys.argv[1:4]
p='/verif/sa/claimed.json'
c=json.load(open(p)); c[pid]={"technique":tech,"note":note}; json.dump(c,open(p,'w'),indent=1)
