"""print the obligations of an evidence file: show.py ID [all]"""
import json, os, sys
d = json.load(open(os.path.join(os.environ.get('VERIF_OUT', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'evidence', sys.argv[1] + '.json')))
def walk(x):
    if isinstance(x, list):
        for y in x:
            walk(y)
    elif isinstance(x, dict):
        if 'verdict' in x and 'name' in x:
            if len(sys.argv) > 2 or x['verdict'] != 'holds':
                print(x['verdict'], '|', x['name'], '|', x['how'][:300], '|', str(x.get('detail', ''))[:400])
        else:
            for y in x.values():
                walk(y)
walk(d)
