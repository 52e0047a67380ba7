#!/usr/bin/env python3
# addnote.py ID technique note : append a note to notes.py
import sys
p='/verif/tools/notes.py'; s=open(p).read()
i,t,n=sys.argv[1:4]
assert '"%s":'%i not in s
k=s.index('}\nNA =')
s=s[:k]+' "%s": ("%s",\n         "%s" + BASE),\n'%(i,t.replace('"',"'"),n.replace('"',"'"))+s[k:]
open(p,'w').write(s)
