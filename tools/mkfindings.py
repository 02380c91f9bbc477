"""Rewrites the 'fixed:' entries of known-findings.txt from the fix: commits in /repo."""
import subprocess, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP=[('MemoryStorage must not share','P02'),('distinct ids apart','P03'),('must not tear records','P06'),
('memory_limit 0','P04'),('reject vectors an index','P11'),('earlier life','P12'),('HNSW search','P28'),('IVF must put','P27'),
('LSH initialize','P12'),('bucket statistics','P26'),('LSH delete/update','P09'),('LSH must validate','P11'),
('Annoy must keep ids','P07'),('loaded Annoy','P25'),('failed or interrupted save','P13'),('operation numbers','P14'),
('stop at the end','P20'),('long paragraphs','P20'),('configured parsers','P22'),('pipeline twice','P22'),
('cached embeddings','P24'),('empty texts','P24'),('repeat whole chunks','P20'),('at least one bit','P19'),
('SAQ search','P19'),('claim to be trained','P12'),('quantizers must reject','P11'),('ids in input order','P17'),
('batch statistics','P16'),('concurrent client','P17'),('get_recommended_config','P29'),('create_vector_db','P29'),
('IndexInspector','P29'),('a failed delete','P10'),('integer vectors','P07'),('inserting nothing','P25'),('saving an empty Annoy','P25'),('JSON format','P30'),('vector that could not be written','P06'),('saved as name.tmp','P13'),('ids that would load','P13'),('checkpoint_<name>','P14'),('log entry','P14'),('more hash bits','P26'),('63 or more bits','P18'),('quantization of integer','P18'),('failed training','P11'),('retraining SAQ','P19'),('double precision','P18'),('half-finished operations','P15'),('client statistics must','P17'),('failing progress callback','P16')]
extra={}
import json
try: MAP+= [tuple(x) for x in json.load(open(os.path.join(V,'tools','findings_extra.json')))]
except FileNotFoundError: pass
p=os.path.join(V,'known-findings.txt')
old=[l for l in (open(p).read().splitlines() if os.path.exists(p) else []) if l.startswith('known:')]
out=['# Genuine defects of varshith-Git/valori found with this framework.',
'# "fixed: property=<id> <commit> <what failed>": repaired in /repo; suppresses nothing.',
'# "known: property=<id> key=<violation key> <what fails>": recorded, not repaired (none so far unless listed).']+old
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    pid=[b for a,b in MAP if a in s]
    if not pid: print('unmapped',s); continue
    out.append('fixed: property=%s %s %s'%(pid[0],h,s[5:]))
open(p,'w').write('\n'.join(out)+'\n')
