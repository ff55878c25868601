"""append to known_findings.json every fix: commit of /repo not listed yet (usage: addfixed.py PROP, for all new ones)"""
import json, subprocess, sys
k = json.load(open('/verif/known_findings.json'))
for l in reversed(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()):
    h, s = l.split(' ', 1)
    if s.startswith('fix: ') and not any(h[:7] in f for f in k['fixed']):
        k['fixed'].append(f"fixed: property={'P13' if 'time scale of corr' in s else sys.argv[1]} {h[:7]} {s[5:]}")
        print(k['fixed'][-1])
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
