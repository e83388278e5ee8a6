#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

GM, RES, CFG = 'pygmo_fwork/global_model.py', 'pygmo_fwork/results.py', 'pygmo_fwork/config.py'
MOD, MP, EQ = 'pygmo_fwork/pygmol/model.py', 'pygmo_fwork/pygmol/model_parameters.py', 'pygmo_fwork/pygmol/equations.py'
MOR, RED, GR = 'pygmo_fwork/optichem/morris.py', 'pygmo_fwork/optichem/reduction.py', 'pygmo_fwork/optichem/graph.py'
CH, XML, ERR = 'plaschem/chemistry.py', 'plaschem/xml_inputs.py', 'pygmo_fwork/optichem/errors.py'

p('C01', 'A logged run reads back as what was computed, and never disturbs others',
  '''Over any history of runs, a run logged under an id reads back through the results parser as exactly the solution,
  rates, wall fluxes, model parameters, initial values and chemistry state that run was given and computed; with
  compression it reads back as a subset of those rows that keeps the first and the last. Logging under an id that
  already exists is refused and leaves it unchanged unless overwriting was asked for, in which case it is replaced as a
  whole. No run ever changes what any other id holds.''',
  ['histories', 'inputs', 'configurations'],
  '''Every sequence of runs on any chemistry (including disabled species and ad-hoc kinetic data), any valid model
  parameters and initial values, with and without overwrite, compression and an explicit results directory.''',
  '''Unit tests log one hand-made dummy frame once; they never read a real run back, never interleave ids,
  chemistry edits, overwrites and compression.''',
  [GM, RES, MOD, CFG, CH],
  [('log_results', GM + ' GlobalModel.log_results'), ('run', GM + ' GlobalModel.run'),
   ('fetch_*', RES + ' ResultsParser'), ('compress_solution', RES), ('dump_chemistry_attributes', CH)],
  observe=['ResultsParser.fetch_*', 'Chemistry.load_chemistry_attributes', 'files under results_dir/run_id'])

p('C02', 'Logging a run is all-or-nothing under crashes, disk errors and concurrency',
  '''If the process is killed or the disk fails at any point while a run is being logged, or several processes log at
  once, a reader finds under the run id either the complete new results, the complete previous results of that id, or an
  explicit not-found error, and never a partial, torn or mixed set. A disk error during logging reaches the caller and
  leaves the previous results of that id in place, and results of other ids are never affected. Of processes logging the
  same new id without overwriting exactly one succeeds and the others are told so, and repeating a failed attempt
  succeeds once the fault is gone.''',
  ['crash_points', 'fault_sequences', 'schedules'],
  '''Every point at which the logging code touches the file system (kill before it, kill within a write, ENOSPC, EIO,
  short write), every interleaving of up to three logging processes, new and existing ids, with and without overwrite.''',
  'No test kills a run, fails a write, or logs from two processes.',
  [GM, RES, MOD], [('log_results', GM + ' GlobalModel.log_results'), ('dump_logs', MOD + ' Model.dump_logs')],
  observe=['ResultsParser.fetch_*', 'directory listing of results_dir'])

p('C03', 'A failed run is never reported, read or logged as a result',
  '''Whenever a model run does not complete successfully, because of rejected arguments, a solver that reports failure or
  raises, or an interrupt, the model reports no success, every result getter refuses, and nothing is logged. This
  holds also when an earlier run of the same model had succeeded, and whatever was logged before stays unchanged. The
  next run that does complete gives exactly the results a fresh model gives.''',
  ['histories', 'fault_sequences'],
  '''Every history of successful and failed runs on one model object, each failure kind at each place in the history.''',
  'Tests check one failing run on a fresh object; none checks getters after success-then-failure histories.',
  [GM, MOD], [('last_run_success / assert_success', GM), ('Model.run/_solve', MOD)],
  state=[('last_run_success', 'None before any run, then outcome of the last', GM)],
  observe=['GlobalModel.success', 'GlobalModel.get_*', 'results_dir'])

p('C04', 'A run depends only on current chemistry, parameters and its own arguments',
  '''What a run computes is determined by the state of the chemistry at the time of the run, the model parameters as they
  were when they were loaded into the model, and the arguments of that run. It does not depend on earlier runs
  (successful, failed or of another chemistry state), on what the caller later does to the parameter or
  initial-value objects passed in, or on what the caller does to results returned earlier.''',
  ['histories', 'inputs'],
  '''Every history of runs, chemistry edits (disable, reset, ad-hoc kinetic data, attribute loading), parameter reloads and
  caller-side mutation of objects passed in and returned.''',
  'Tests run each model object once or twice with fixed inputs, so state carried between runs cannot show.',
  [MOD, EQ, GM, MP, CH], [('equations rebuilt for each run', MOD + ' Model._solve'),
   ('parameters frozen', MP + ' ModelParameters'), ('copies returned', MOD + ' get_solution')],
  observe=['the initial value problem handed to the solver', 'GlobalModel.get_*'])

p('C05', 'A parallel Morris batch yields exactly the requested complete trajectories',
  '''For every interleaving of its worker processes, a Morris batch that returns normally has added exactly the requested
  number of new, distinct, complete trajectories to the Morris run, each readable by the evaluation, and has changed no
  trajectory that was already there. If any trajectory of the batch fails, the batch raises instead of returning
  normally, and the trajectories it did complete stay valid. The same goes for separate processes adding trajectories
  with distinct ids to one Morris run at the same time.''',
  ['schedules', 'histories', 'fault_sequences'],
  '''Every schedule of 1 to 4 workers, new and already populated Morris runs, all trajectory types, full and compressed
  logging, solver failures and disk errors inside a worker.''',
  'No test runs run_morris or run_trajectory at all; the worker pool is never exercised.',
  [MOR, GM, CFG], [('run_morris', MOR), ('_prepare_logging', MOR), ('_assert_coherence/_dump_meta', MOR)],
  state=[('meta directory', 'shared by all workers of a Morris run', MOR)],
  observe=['MorrisMethod.evaluate_trajectory', 'MorrisMethod.get_morris_stats', 'logs directory'])

p('C06', 'A Morris run survives crashes: finished trajectories count, unfinished never do',
  '''If a Morris batch or trajectory is killed, interrupted or hit by a disk or solver failure at any point, every trajectory
  finished before stays intact and readable, and statistics and rankings are computed from exactly the finished trajectories, unfinished
  ones never being counted and never preventing the evaluation. Starting trajectories again on the same Morris run
  succeeds without manual cleaning up, and evaluation never modifies anything on disk.''',
  ['crash_points', 'fault_sequences', 'histories'],
  '''Every crash point or disk error inside a sequence of trajectories and batches, followed by restart, continuation and
  evaluation; also two crashes in a row.''',
  'No test interrupts a Morris run or evaluates a directory with an unfinished trajectory.',
  [MOR, RES], [('meta.yaml of a trajectory written last', MOR + ' run_trajectory'), ('_get_next_traj_id', MOR),
   ('get_morris_stats', MOR)],
  observe=['MorrisMethod.get_morris_stats', 'MorrisMethod.get_ranking', 'MorrisMethod.run_morris'])

p('C07', 'A Morris trajectory moves one factor per step and records what it solved',
  '''Every trajectory starts on the factor grid and changes each factor exactly once, one per step, by plus or minus the step
  size without leaving the unit cube. Each logged solution is that of the model solved with exactly the kinetic data the factors prescribe
  (return-coefficient factors conserving the number of particles returned), and the recorded factor ids, step signs and run ids are those
  of the steps taken, so that the elementary effects evaluated later are the differences of successive solutions over the recorded steps.''',
  ['inputs', 'histories'],
  '''Every chemistry (including disabled species and ad-hoc data), every random seed, all trajectory types and
  return-coefficient lists with one or several ranges, full, compressed and uncompressed logging.''',
  'Tests cover the generator and the mapping functions on toy vectors; no test runs a trajectory end to end.',
  [MOR], [('_trajectory', MOR), ('_map_*', MOR), ('run_trajectory', MOR), ('evaluate_trajectory', MOR)],
  observe=['the sequence of problems handed to the solver', 'trajectory meta file', 'MorrisMethod.evaluate_trajectory'])

p('C08', 'A Morris run only ever mixes coherent trajectories',
  '''Once a Morris run holds a finished trajectory, a new trajectory is accepted exactly if its chemistry state, model parameters,
  trajectory type and backend are those of the run: an incoherent one is refused with a coherence error, a coherent one is
  never refused. A refused attempt changes neither the finished trajectories nor the recorded reference the later ones are compared with. This
  holds across restarts, after crashes and under concurrent additions.''',
  ['histories', 'crash_points', 'schedules'],
  '''Every history of coherent and incoherent additions (changed ad-hoc data, disabled species, changed parameters, type,
  letter case of the backend name) in the same or restarted processes, with crashes in between and coherent concurrent additions.
  Attempts begun before any trajectory is finished are only quantified over coherent ones.''',
  'One unit test checks the coherence helper on a hand-made directory; histories, restarts and crashes are not tested.',
  [MOR, CH], [('_assert_coherence', MOR), ('_dump_meta', MOR), ('check_coherence', CH)],
  observe=['MorrisCoherenceError', 'meta directory'])

p('C09', 'Morris leaves the inputs alone and its trajectories random and independent',
  '''Running trajectories, singly or in parallel, successful or failing, never changes the chemistry or the model parameters
  the method was built with. Trajectories are sampled independently of each other even though workers are forked from one process, while a trajectory
  run with an explicit seed is reproduced exactly.''',
  ['schedules', 'histories', 'fault_sequences'],
  '''Every worker count and schedule, every trajectory type, every place of failure, repeated batches in one process.''',
  'Tests never run two trajectories, so neither input mutation nor correlated random streams can show.',
  [MOR, CH], [('chemistry copied per trajectory', MOR + ' run_trajectory'), ('generator seeded per trajectory', MOR),
   ('copy', CH + ' Chemistry.copy')],
  observe=['chemistry and parameter snapshots', 'start vectors of all trajectories'])

p('C10', 'Reduction always leaves the chemistry in the last accepted state',
  '''After every attempted species removal the chemistry is exactly the reduced one if the removal was accepted, and exactly the last
  accepted one if the species could not be disabled, the model run failed or was interrupted from the keyboard, or the error limit was exceeded
  while backtracking was on. Only eligible species (never an important, protected or special one) disappear from the accepted chemistry, and when a reduction run
  completes the chemistry is back to its full initial state with its ad-hoc data.''',
  ['histories', 'fault_sequences', 'inputs'],
  '''Every chemistry, ranking (static or recalculated), error limit and streak limit, every placement of solver failures,
  keyboard interrupts during the model run and over-limit errors, including removals that cascade to other species.''',
  'One run test reduces one chemistry once without failures; restore paths and cascades are not exercised.',
  [RED, CH], [('remove_one_species_and_run', RED), ('load_chemistry_attributes', CH), ('reset', CH), ('disable', CH)],
  observe=['chemistry snapshot after each step'])

p('C11', 'The reduction history on disk is a truthful record at every moment',
  '''At every moment, also after a crash or disk error at any point, the reduction history on disk is a complete, parsable prefix
  of the iterations performed; each row records the species attempted, success, all species implicitly removed, the counts left and removed and the errors against the
  base and last accepted solutions as they really were, and accepted rows have their run logged. The reduction tries every species at most once in
  ranking order, stops exactly when the allowed number of consecutive over-limit errors is exceeded or nothing eligible is left, and a reduction id already in use is refused without
  touching it.''',
  ['crash_points', 'fault_sequences', 'histories', 'inputs'],
  '''Every reduction as in C10, killed or failing at any file-system point.''',
  'No test reads the history at intermediate points or interrupts a reduction.',
  [RED, ERR], [('log', RED + ' ReductionIterator.log'), ('run_reduction', RED), ('make_dir_structure_if_clear', RED)],
  observe=['reduction_history.csv', 'logged runs'])

p('C12', 'Disabling is all-or-nothing and keeps the largest consistent network',
  '''A successful disabling request leaves enabled exactly the largest part of what was enabled before that lacks what was asked for
  and is consistent (every reaction has all its species, every species takes part in a reaction). If that would remove a protected species or the last positive ion,
  or the request fails for any other reason while the network is being worked out, an error is raised and the chemistry is exactly as before. A reset restores
  everything that was disabled and nothing else.''',
  ['histories', 'fault_sequences', 'inputs'],
  '''Every network, every sequence of disable, protect, reset, ad-hoc changes, copies and loads, with an interrupt or failing
  allocation at any place inside the computation of the disabling cascade.''',
  'Unit tests try a few requests on fixed networks, one at a time, without failures in the middle.',
  [CH], [('disable/_disable_recursively', CH), ('reset', CH), ('set_protected_species', CH)],
  state=[('enabled masks', 'which species and reactions are enabled', CH)],
  observe=['public getters of the chemistry'])

p('C13', 'Chemistry attribute files restore exact state or change nothing',
  '''Loading an attribute file dumped at any time by a chemistry built from the same data, in the same or a restarted process, restores exactly the state at
  the time of the dump, whatever the state before loading. A missing, torn, corrupt or mismatching file (other network, other source file)
  raises an error and leaves the chemistry exactly as it was. The coherence check is true exactly for files dumped in the current state.''',
  ['histories', 'crash_points', 'fault_sequences'],
  '''Every history of edits, dumps, loads and restarts; every truncation point of a dump that was killed; read errors.''',
  'Unit tests dump and load one intact file in one process.',
  [CH], [('dump_chemistry_attributes', CH), ('load_chemistry_attributes', CH), ('check_coherence', CH)],
  observe=['public getters of the chemistry'])

p('C14', 'Chemistry input files never silently lose or alter the chemistry',
  '''A chemistry dumped to an input file and parsed again, in the same or a restarted process, is the same chemistry: same ids, species, reactions
  and kinetic data. An existing file is not replaced unless asked for. A file left by a dump that was killed or ran
  out of disk is either refused by the parser or parses to the complete old or new chemistry, never to a different one.''',
  ['crash_points', 'fault_sequences', 'inputs'],
  '''Every generated chemistry with all attribute kinds, every crash point and write failure within the dump, histories of several
  dumps to several paths by one builder.''',
  'Tests parse fixed files and compare fixed dumps; nothing interrupts a dump.',
  [XML, CH], [('dump_xml', XML), ('XmlParser', XML)], observe=['XmlParser', 'Chemistry(xml_path=...)'])

p('C15', 'Workspace directories appear correctly under concurrent first use',
  '''Any number of processes asking for any workspace directory for the first time at once, in every interleaving, all obtain the
  path of an existing directory at its documented place under the configured workspace. No such query disturbs
  anything that exists there, and a failed one leaves the next able to succeed.''',
  ['schedules', 'fault_sequences'],
  '''Every interleaving of two to four processes over the directory queries and default-directory users, with transient
  disk errors and pre-existing parts of the tree.''',
  'Tests query directories from one process only.',
  [CFG, MOR], [('get_*_dir', CFG)], observe=['file system tree', 'returned paths'])

p('C16', 'Equal inputs give identical rankings and reduction records in any process',
  '''With the same inputs, recorded results and (where sampling is involved) the same random seed, graph rankings, Morris
  trajectories and rankings, and reduction histories come out identical in every process,
  whatever the hash seed, directory listing order, clock, process id or earlier activity of the process.''',
  ['schedules', 'configurations', 'histories'],
  '''Every hash seed, directory listing order, clock and process history, for generated chemistries including ties.''',
  'The test command pins one hash seed, one process and one listing order.',
  [GR, MOR, RED], [('sorting of ranking', GR), ('get_morris_stats', MOR), ('remove_one_species_and_run', RED)],
  observe=['returned rankings', 'reduction_history.csv'])

# ---- properties this family cannot decide (pure functions of their arguments) -------------------------------------
def na(id, title, statement, files, mech, text='All valid inputs.', why='Tests check a handful of fixed inputs.'):
    p(id, title, statement, ['inputs'], text, why, files, [(m, files[0]) for m in mech])

na('C20', 'Model equations conserve charge, elements and energy consistently',
   '''For any chemistry, parameters and state vector the right-hand side of the equations balances particles, charge and energy between
   volume reactions, flows and walls.''', [EQ], ['get_objective_functions', 'final_balance_equations'])
na('C21', 'Stoichiometric and return matrices agree with the reactions and species',
   '''For any chemistry the matrices hold exactly the stoichiometric and return coefficients of the enabled reactions and species.''',
   [CH], ['get_stoichiomatrix', 'get_return_matrix'])
na('C22', 'Graph searches are optimal',
   '''For any weighted graph the reported widest path, shortest path and maximum flow values are the optima.''',
   [GR], ['find_max_bottleneck_paths', 'find_shortest_paths', 'get_max_flow'])
na('C23', 'Coupling weights follow their definitions',
   '''For any rates and wall fluxes the distributed edge weights equal the definition of the chosen weighting method.''',
   [GR], ['distribute_weights'])
na('C24', 'Species and reaction attributes are validated and unit-converted',
   '''For any attribute value and unit, construction either stores a value whose SI form is right or raises.''',
   ['plaschem/species.py', 'plaschem/reactions.py'], ['set_species_attribute', 'set_reaction_attribute'])
na('C25', 'Classification and sorting are total and stable',
   '''Every reaction falls in exactly one type and category and sorting neither loses nor duplicates an element.''',
   ['plaschem/classification.py'], ['ReactionClassifier'])
na('C26', 'Contribution tables and solution differences follow their definitions',
   '''Volumetric, surface and total rates contributions and the maximal and rms differences of solutions equal their definitions for any
   inputs.''', [RES, ERR], ['get_volumetric_rates', 'get_surface_rates', 'SolutionsDiff'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
