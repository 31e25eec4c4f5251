"""writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = ("contract-based deductive verification of the real code: contracts over the library's functions; verification conditions generated by "
        "symbolic execution of the LLVM IR of /repo's sources, loops and concurrency closed by invariants (monitor and rely/guarantee contracts, checked "
        "inductive closure) in the thread-modular units; discharged by z3/evaluation, cvc5 re-check in the thorough tier")
# what is proved without a bound, and what is a bounded stand-in (labelled so in the evidence)
NOTE = {
 'C01': 'Proved: all values, outcomes, result kinds and orders of sets, throwing constructors. Bounded: set racing drop, 2 threads. ',
 'C02': 'Proved for any number of threads, callbacks and CAS failures: push/consume/is_consumed/execute (rely/guarantee). Bounded: whole-program races, 2-3 threads. ',
 'C03': 'Proved for any number of threads: publication protocol of the callback stack (memory orders). Bounded: data-race freedom of whole paths, 2-3 threads. ',
 'C04': 'Proved: every producer kind, outcome and result kind. Bounded: abandon racing attach/drop, 2 threads. ',
 'C05': 'Proved: the wait loop for any state and any wake-ups; results for every source and observer. Bounded: whole-program waiter/completer schedules, 2-3 threads. ',
 'C06': 'Proved for any number of waiters and wake-ups, symbolic deadlines: wait_for/wait_until and the completion callback. Bounded: member functions with 2-3 threads. ',
 'C07': 'Proved: all parent outcomes, result kinds, forms and attachment times. Bounded: attaching racing completion, 2-3 threads. ',
 'C08': 'Proved: every inner state, way to start and observer. Bounded: races of inner completion, drop and attach, 2-3 threads. ',
 'C09': 'Proved: all drop points and result kinds, single threaded. Bounded: drop racing completion with scheduled reference counts, 2 threads. ',
 'C10': 'Proved: all functions/executors of the units (single threaded). ',
 'C11': 'Proved for any number of inputs and threads: make and notify. Bounded: whole-program races 2-3 inputs, vectors of at most 3. ',
 'C12': 'Proved for any number of inputs and threads: make and notify. Bounded: whole-program races 2 inputs, vectors of at most 3. ',
 'C13': 'Proved for any number of tasks, producers and consumers: push, pop, close (monitor invariant). Bounded: whole-program runs, 2 producers/consumers. ',
 'C14': 'Proved for any number of tasks and workers: the worker loop and attach. Bounded: constructor, wait, stop, destructor with 1-2 workers and 1-3 tasks. ',
 'C15': 'Proved for any counts and threads: every member function including the destructor. Bounded: whole-program destruction races, 2-3 threads. ',
 'C16': 'Proved: all storage sizes/alignments, argument and result kinds of the units (single threaded). ',
 'C17': 'Proved: tagged storage with throwing constructors; lists of any length. Bounded: list race, 2 threads. ',
 'C18': 'Proved: every allocation point, allocation and construction failures. Bounded: waiter and completer, 2 threads. ',
 'C19': 'Proved: outcomes, argument and result kinds, histories of the units. Bounded: task run in another thread. ',
 'C20': 'Proved: handle histories of the units (single threaded). ',
 'C21': 'Proved: values, outcomes, awaiting before/after completion. Bounded: completion racing suspension and drop, 2 threads. ',
}
COMMON = ("Obligations are regenerated from /repo's current source on every run. "
          "Assumes SC interleavings plus happens-before race freedom under the memory orders written in the code; thread-modular units are partial correctness (plus no missed "
          "notification) and use the rely/guarantee composition rule; trusts clang's front end, the verifier in vc/, z3 and the models of libstdc++/pthread externals.")
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=p['id'], quick_cmd='bash check.sh %s' % p['id'], thorough_cmd='bash check.sh %s --tier thorough' % p['id'],
                      technique=TECH, level='proof', level_note=NOTE.get(p['id'], '') + COMMON) for p in props],
         not_applicable=[], notes='No hooks in /repo: contracts live in /verif/contracts and include the real sources; known findings in known-findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
