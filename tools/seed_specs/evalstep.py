ID='t05_eval_cache'; PROP='T05'
EDITS=[('t5x/trainer.py','''      metrics = None
      # Use a pre-compiled step function, if available.
''','''      # Use a pre-compiled step function, if available.
'''),('t5x/trainer.py','''    eval_summaries = {}
    train_state = self.train_state
    for iter_name, batch_iter in batch_iters.items():
''','''    eval_summaries = {}
    metrics = None
    train_state = self.train_state
    for iter_name, batch_iter in batch_iters.items():
''')]
NEEDS='an evaluation over more than one dataset'
BREAKS='the metrics of each evaluation dataset after the first also contain the batches of the ones before'
LIBS=['trainlib.py']
DEMO=open('/tmp/seeds/evalstep_demo.py').read()
