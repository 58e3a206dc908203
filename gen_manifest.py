import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
'C01':'property-based round-trip testing over schema-generated values, with exhaustive length and character sweeps',
'C02':'property-based differential testing against an independent reference encoder',
'C03':'structure-aware fuzzing of every decoder with crash, panic and overflow detection',
'C04':'differential fuzzing against an independent reference decoder, re-encoding check',
'C05':'property-based testing: every prefix of generated encodings; model-based cursor histories',
'C06':'property-based testing: one generated defect per case, expected error class as oracle',
'C07':'exhaustive enumeration of all 2^24 frame headers plus generated frames against the registry table',
'C08':'property-based testing of frame lengths with boundary sweeps and counting writers',
'C09':'property-based testing of generated streams against the generated sequence',
'C10':'exhaustive pairs of kinds and generated frames against the expected verdict',
'C11':'property-based testing of constructors and decoders against the length model',
'C12':'property-based testing of constructors and decoders against the rule model, exhaustive versions and lengths',
'C13':'exhaustive and generated vocabulary checks in all directions',
'C14':'fault injection: generated writer scripts and every failure position',
'C15':'structure-aware fuzzing with an allocation-measuring oracle',
'C16':'property-based testing of generated handshakes and transports',
'C17':'fault injection into handshakes (generated and every single bit)',
'C18':'differential testing against an independent implementation of the Noise specification',
'C19':'model-based testing of generated transport histories with forgeries',
'C20':'stateful fuzzing of sessions with hostile bytes, sizes and malicious replies',
'C21':'model-based testing of generated call interleavings',
'C22':'exhaustive enumeration of small-order encodings and neighbours plus generated keys',
'C23':'model-based testing of generated rekey and clear histories',
'C24':'property-based testing with a memory-scan oracle',
'C25':'statistical property testing over generated batches, threads and processes',
'C26':'property-based testing of generated certificates, alterations and clock values',
'C27':'property-based testing of issuance against an independent signature check',
'C28':'property-based testing of generated times with an interposed clock',
'C29':'model-based testing and generated concurrent histories with an exactly-once oracle',
'C30':'property-based differential testing against an independent X25519 and hex parser',
'C32':'model-based end-to-end testing of generated connections with injected faults',
'C33':'property-based testing of generated impostors against an attacker model',
'C34':'property-based testing of generated near-equal pairs against the field model',
'C35':'metamorphic testing: generated operation sequences in several orders and threads',
'C31':'property-based testing: all error kinds and errors returned for generated inputs',
}
checks=[]
for p in P:
    i=p['id']
    checks.append(dict(property=i,quick_cmd=f'./check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}',technique=T[i],level='exploration',
      level_note='Held on every generated case (counts, classes and samples in the evidence file); enumerated sub-spaces are complete. Inputs outside the generated ones are not covered. Trusts the reference models in harness/src.'))
json.dump(dict(version=1,setup_cmd='harness/build.sh',
 hooks=dict(guard='cfg(verif_hooks)',enable='harness/build.sh builds with RUSTFLAGS="--cfg verif_hooks" (and without it if that fails to build)',source_commits=['8863f07']),
 checks=checks,not_applicable=[],notes='check.sh ID rebuilds from /repo and decides one property; check.sh --replay FILE reruns a recorded failure.'),
 open('/verif/MANIFEST.json','w'),indent=1)
