import subprocess,sys,re
for e in re.split(r'\n(?=P\("C)', sys.stdin.read().strip()): subprocess.run(["python3","/verif/tools/addprop.py"],input=e,text=True,check=True)
