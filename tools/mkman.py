import json,subprocess
ids=[f'C{i:02d}' for i in range(1,20)]
T='contract-based deductive verification of the compiled MIR (function contracts, symbolic execution, exact polynomial provers over Z and GF(p))'
N={
'C08':'Sums: proved by induction on the fold (the model of Iterator::fold is trusted) or for the stated lengths only, as listed under bounded in the evidence.',
}
h=subprocess.check_output(['git','-C','/repo','rev-parse','HEAD'],text=True).strip()
m=dict(version=1,setup_cmd='cd driver && cargo +nightly build --release --offline',
 hooks=dict(guard='cfg ed448_verif',enable='RUSTFLAGS="--cfg ed448_verif" (only the replay harness in /verif/native; the proofs read the MIR of the unhooked code)',source_commits=[h]),
 checks=[dict(property=i,quick_cmd=f'python3 check.py {i} quick',thorough_cmd=f'python3 check.py {i} thorough',technique=T,level='proof',
   level_note='Every obligation generated from the MIR of the current tree, for both back ends, all inputs, no bound on values. Trusted: rustc to MIR, the prover in /verif/vp, the models of core functions listed in the evidence. '+N.get(i,'')) for i in ids],
 not_applicable=[dict(property='C20',reason='constant time is a property of the generated machine code and of the microarchitecture; functional contracts over MIR do not see it, since MIR-level branches and selects are freely rewritten by LLVM')],
 notes='check.py regenerates the MIR from /repo on every run; nothing of the code is copied by hand.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
