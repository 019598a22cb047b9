import json,subprocess
log=dict((l.split(' ',1)[1],l.split(' ',1)[0]) for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines())
props=json.load(open('/verif/tools/fixes.json'))
out=[]
for s,h in log.items():
    if not s.startswith('fix:'): continue
    pid=props.get(s); assert pid,s
    out.append(dict(property=pid,status='fixed',commit=h,what='fixed: property=%s %s %s'%(pid,h,s[5:])))
json.dump(out+json.load(open('/verif/tools/known.json')),open('/verif/known_findings.json','w'),indent=1)
