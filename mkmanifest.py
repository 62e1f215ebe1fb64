"""writes MANIFEST.json from the list of claimed properties"""
import json, sys
T='deductive verification: contracts over symbolic execution of the crate\'s MIR (mirvc), canonical-form equality and z3'
CLAIMED=sys.argv[1:] or [l.strip() for l in open('/verif/CLAIMED')]
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
NOTES={}
exec(open('/verif/notes.py').read()) if __import__('os').path.exists('/verif/notes.py') else None
DEF='All obligations are postconditions of the real functions, regenerated from /repo and discharged on every run, for all inputs. Assumed: the library contracts in mirvc/lib.py, the verifier itself, z3. A bounded replay on the compiled crate runs beside the proof and supplies failing inputs.'
m=dict(version=1,setup_cmd='python3-vt setup.py',hooks=dict(guard='cloud_storage_signature_verif (rustc --cfg flag)',enable='RUSTFLAGS="--cfg cloud_storage_signature_verif" when the replay harness is built (conc/harness.py)',source_commits=['3ab732a']),
 checks=[dict(property=p,quick_cmd='VERIF_TIER=quick python3-vt check.py '+p,thorough_cmd='VERIF_TIER=thorough python3-vt check.py '+p,technique=T,level='proof',level_note=NOTES.get(p,DEF)) for p in CLAIMED],
 not_applicable=[dict(property=p,reason='check under construction') for p in props if p not in CLAIMED])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
