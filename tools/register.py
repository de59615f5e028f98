import sys
# register checks: args name pool build
p='/verif/lib/checks.py'
s=open(p).read()
pid,pool,builds=sys.argv[1:4]
lvl=sys.argv[4] if len(sys.argv)>4 else "model_checking"
if pool not in s:
    s=s.replace("\n\n\ndef c01",", %s\n\n\ndef c01"%pool,1)
s=s.replace('CHECKS = {','''def %s(rep):
    core.build(%s)
    %s.run(rep, core.THOROUGH)


CHECKS = {'''%(pid.lower(),", ".join('"%s"'%b for b in builds.split(",")),pool),1)
i=s.index('CHECKS = {')
body=s[i:].split("\n")
ents=[l for l in body[1:] if l.startswith("    \"")]+['    "%s": (%s, "%s"),'%(pid,pid.lower(),lvl)]
s=s[:i]+"CHECKS = {\n"+"\n".join(sorted(ents))+"\n}\n"
open(p,'w').write(s)
