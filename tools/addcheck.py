import sys
p='/verif/mc/src/checks/mod.rs'
s=open(p).read()
for i in sys.argv[1:]:
    m=i.lower()
    if f'mod {m};' in s: continue
    s=s.replace("\npub fn all()",f"mod {m};\n\npub fn all()",1).replace("\n\nmod ","\nmod ") if False else s
    prev=f"mod c{int(i[1:])-1:02d};\n"
    s=s.replace(prev,prev+f"mod {m};\n")
    prevl=f'        Check {{ id: "C{int(i[1:])-1:02d}", spaces: c{int(i[1:])-1:02d}::spaces }},\n'
    s=s.replace(prevl,prevl+f'        Check {{ id: "{i}", spaces: {m}::spaces }},\n')
open(p,'w').write(s)
