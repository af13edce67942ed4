import sys,subprocess
def fix(msg, *eds):
    for p,a,b,*n in eds:
        s=open('/repo/'+p).read(); c=s.count(a); want=n[0] if n else 1
        assert c==want,(p,a,c)
        open('/repo/'+p,'w').write(s.replace(a,b))
    subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+msg])
