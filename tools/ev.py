import json,sys
for p in sys.argv[1:]:
  e=json.load(open(f'/verif/evidence/{p}.json'));c=e['coverage']
  print(p,e['wall_s'],c['evaluations'],c['distinct_nontrivial'],c['distinct_interleavings'],'rep',c['replays_identical'],c['replays_compared']);print('  F',c['faults_injected']);print('  P',c['probes'])
