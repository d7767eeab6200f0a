# reads a P(...) entry on stdin, inserts it at the end of PROPS in catalog.py (replacing an entry of the same id)
import re, sys
s = open('/verif/catalog.py').read(); e = sys.stdin.read().strip().rstrip(',')
i = re.match(r'P\("(C\d+)"', e).group(1)
head, tail = s.split('\n]\nNOT_APPLICABLE', 1)
parts = re.split(r'\n(?=P\("C\d+")', head)
parts = [p for p in parts if not p.startswith('P("%s"' % i)]
pre, ent = parts[0], parts[1:] + [e + ',']
ent.sort(key=lambda p: re.match(r'P\("(C\d+)"', p).group(1))
open('/verif/catalog.py', 'w').write(pre + '\n' + '\n'.join(ent) + '\n]\nNOT_APPLICABLE' + tail)
