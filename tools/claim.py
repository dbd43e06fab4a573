"""usage: claim.py ID <<< 'statement\n---\ntechnique\n---\nbounds' : replaces the statement in props_table and adds the CLAIMS entry"""
import sys,re
pid=sys.argv[1]; st,te,bo=[x.strip() for x in sys.stdin.read().split('\n---\n')]
p='/verif/tools/props_table.py';s=open(p).read()
a=s.index("P('%s'"%pid);b=s.find("\nP('",a+1); b=b if b>0 else s.index('\nCLAIMS',a)
blk=s[a:b]
lines=blk.split('\n')
assert lines[1].strip().startswith('"') and lines[1].rstrip().endswith('",'), lines[1][:80]
lines[1]='  '+__import__('json').dumps(st,ensure_ascii=False)+','
s=s[:a]+'\n'.join(lines)+s[b:]
s=s.replace("\nCLAIMS = {\n","\nCLAIMS = {\n '%s': (%r,\n         %r),\n"%(pid,te,bo),1)
open(p,'w').write(s)
