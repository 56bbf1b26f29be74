import json
S='src/graph_scheduler/scheduler.py'; C='src/graph_scheduler/condition.py'; T='src/graph_scheduler/time.py'; U='src/graph_scheduler/utilities.py'
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None,hook=False):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':obs,'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','Execution follows the graph order',
 "In standard mode every set a run yields contains only nodes of one topological layer of the scheduler's current graph, so no node in it depends on another node in it. Within one pass the layers are visited in increasing order and each at most once, so a node executes at most once per pass and never in the same pass before one of its ancestors that also executes in that pass. Every node of a layer is considered each time its layer is reached. A change of the graph while a run is suspended is in force at the latest from the next pass on.",
 ['inputs','programs','schedules'],'all acyclic graphs (also as modified by graph structure conditions), all condition assignments, all iteration orders of unordered sets, every pass of every run',
 'Tests fix a handful of 1-5 node graphs and compare one literal list of sets; the claim ranges over all graphs, condition assignments and hash orders.',
 [S],[('consideration queue construction',f'{S}:_build_consideration_queue'),('pass / consideration-set loop',f'{S}:Scheduler.run')],
 ['sets yielded by Scheduler.run','Scheduler.graph','Scheduler.consideration_queue'])
p('C02','A yielded set is exactly the satisfied nodes',
 "Each execution set is a fixed point: every node in it had its condition satisfied given the executions before it and the earlier members of the same set, and when the set is complete no remaining node of that layer has its condition satisfied. A layer with no satisfied node yields nothing, and a pass in which nothing executes yields exactly one empty set (absolute-time runs yield one set per layer instead). No satisfied node is skipped and no unsatisfied node is executed.",
 ['inputs','programs','schedules'],'all graphs, all condition expressions over the included conditions, all reachable execution histories and all iteration orders inside a layer',
 'Tests compare fixed expected sequences for selected condition pairs; interactions (cascades inside one layer, conditions that turn false when a sibling runs, empty passes) over arbitrary condition trees are unsampled.',
 [S,C],[('fixed-point loop over a consideration set',f'{S}:Scheduler.run'),('satisfaction test',f'{C}:Condition.is_satisfied')],
 ['sets yielded by Scheduler.run','Scheduler.execution_list'])
p('C03','Unconditioned nodes fire once per firing of all their parents',
 "A node without a basic condition executes whenever it is considered and every one of its current graph parents has executed at least once since the node's own last execution in that run; a node without parents always executes. Hence a graph with no conditions and default termination runs every node exactly once, layer by layer, in one pass, on every run. The parents are those of the graph in force when the run starts, also when graph structure conditions are added or removed between runs.",
 ['inputs','histories'],'all acyclic graphs, all subsets of nodes left without condition, all sequences of runs and structural changes between them',
 'Tests cover a few linear/branching graphs and a single first run; the claim ranges over every graph shape, every subset of unspecified nodes and graph changes between runs.',
 [S],[('default condition assignment',f'{S}:Scheduler._validate_conditions'),('useable-call bookkeeping',f'{S}:Scheduler.run')],
 ['sets yielded by Scheduler.run'])
p('C04','Call-count conditions agree with the execution history',
 "The conditions based on how often or how recently nodes executed (before/at/after N calls, after a call, combined calls, every N calls, just ran, all have run) are satisfied exactly when the stated relation holds of the actual execution history of that execution context within the stated time scale. Every-N-calls counts the dependency's executions since its owner's last execution in the current run; just-ran refers to the immediately preceding execution set, across run boundaries, and is false when there is none.",
 ['inputs','histories','schedules'],'all call-count conditions, parameters n, dependencies, owners and time scales, evaluated at every point of every execution history',
 'Tests evaluate each condition class with one or two parameters on one or two node graphs in one run, mostly with the default time scale; multi-run, multi-sequence and multi-context histories are not reached.',
 [C,S],[('node-based conditions',f'{C}:BeforeNCalls .. AllHaveRun'),('counts bookkeeping',f'{S}:Scheduler.run, _reset_counts_total, _reset_counts_useable, end_environment_sequence')],
 ['Condition.is_satisfied(scheduler=..., execution_id=...)','sets yielded by Scheduler.run'])
p('C05','Time-based conditions agree with the elapsed units of time',
 "The conditions based on consideration set executions, passes, environment state updates and environment sequences (before, at, after, after N, every N, and the convenience start conditions) are satisfied exactly when the stated relation holds between n and the number of those units completed so far within the current unit of the given time scale, counting from zero.",
 ['inputs','histories'],'all time-based conditions, all n, all admissible time scales, at every point of every history of runs and sequences',
 'Tests use small n with the default scale inside one or a few runs; combinations of scale, skipped increments and several sequences are not sampled.',
 [C,T],[('time-based conditions',f'{C}:BeforeConsiderationSetExecution .. AfterNEnvironmentSequences'),('relative time lookup',f'{T}:Clock.get_total_times_relative')],
 ['Condition.is_satisfied','sets yielded by Scheduler.run'])
p('C06','Composite and dynamic conditions compute the stated function',
 "All, any and not compute conjunction, disjunction and negation of their members at the moment of evaluation; the at-most-N wrapper is satisfied the first N times its inner condition is satisfied upon evaluation in that execution context, and never again in it. While/while-not follow the user function's current value, the when-finished family follows the nodes' own finished status for that execution context, and a threshold compares the parameter's current value with the stated operator, indices and tolerances. Assigning a condition to a node makes that node the owner of the conditions nested in it, at any depth.",
 ['inputs','histories'],'all nesting of composite conditions up to arbitrary depth, all external value histories, all execution contexts',
 'Tests check single-level composites with constant members and a few thresholds; nesting, changing external values and several contexts are not reached.',
 [C],[('composites',f'{C}:All, Any, Not, NWhen'),('dynamic conditions',f'{C}:While, WhileNot, WhenFinished*, Threshold')],
 ['Condition.is_satisfied','sets yielded by Scheduler.run','Condition.owner'])
p('C07','A run ends exactly when a termination condition holds',
 "A run executes no further node once its state-update or sequence termination condition is satisfied when checked before a pass or before a consideration set, and does not end earlier. Termination conditions given to one run replace only the time scales they name and only for that run; unspecified scales use the scheduler's own, which default to all nodes having run and never, and resetting them restores the defaults. Time scales may be given by name in any letter case, the caller's mapping is not modified, and anything that is not a basic condition for a time scale is rejected.",
 ['inputs','histories','schedules'],'all graphs, conditions, termination conditions of either scale, per-run overrides, setter histories and positions inside a pass',
 'Tests use a few terminations on fixed graphs; the position of termination inside a pass, merging of overrides and later runs are sampled at single points.',
 [S],[('run loop guards',f'{S}:Scheduler.run'),('merging and parsing',f'{S}:Scheduler._combine_termination_conditions, _parse_termination_conditions, termination_conds')],
 ['end of the Scheduler.run generator','Scheduler.termination_conds'])
p('C08','The clock counts nested units of time consistently',
 "Every yielded set (also an empty one) advances the consideration-set-execution count by one when the run resumes, every completed pass advances the pass count, every completed run advances the state-update count unless told to skip it, and ending a sequence advances the sequence count; advancing a unit resets exactly the finer units to zero. While a set is yielded the clock still shows the time of that set, the previous time is the time before the last advance, and the simplified view always equals the clock.",
 ['histories','schedules'],'all sequences of yields, passes, runs (with and without skipping the state-update increment), sequence ends and abandoned runs, in every execution context',
 'Tests drive the clock by hand or over one run; arbitrary interleavings of runs, sequences, skips and abandoned generators are not covered.',
 [T,S],[('time increment and reset',f'{T}:Time._increment_by_time_scale, _reset_by_time_scale'),('clock advance in run',f'{S}:Scheduler.run, end_environment_sequence')],
 ['Scheduler.get_clock(...).time / previous_time / simple_time at every yield'])
p('C09','Time history queries count what happened',
 "Asking the time history for the number of units of one time scale within a given (or the latest) unit of a coarser recorded scale returns exactly how many such units were counted during it, for every earlier unit as well as the current one. Queries about units that have not occurred, or at a granularity that is not recorded, are refused with the documented error rather than answered.",
 ['histories','inputs'],'all sequences of time increments at any scale, all recording depths, all query/base/index combinations',
 'Tests query a few hand-built histories; the quantifier is every increment sequence, recording depth and index.',
 [T],[('history tree',f'{T}:TimeHistoryTree.increment_time, get_total_times_relative')],
 ['TimeHistoryTree.get_total_times_relative','Clock.get_total_times_relative'])
p('C10','Execution contexts are independent',
 "Runs under different execution ids on one scheduler do not influence each other: the sets, clock, history and timestamps of one context are the same whatever happens in the others, also when their runs are interleaved step by step. A run without an execution id uses the scheduler's default one, and a context explicitly based on another one starts from that one's counts and execution history and evolves independently afterwards.",
 ['histories','schedules','inputs'],'all interleavings of any number of runs in any number of contexts, any default id, all conditions',
 'Tests run contexts sequentially with one condition each; interleavings and state leaking through defaults or shared counters are not reached.',
 [S,C],[('per-context state',f'{S}:Scheduler._init_counts, _init_clock, get_clock'),('per-context satisfaction counter',f'{C}:NWhen.satis')],
 ['sets yielded by Scheduler.run per execution_id','Scheduler.execution_list, execution_timestamps, get_clock'])
p('C11','State carries over between runs exactly by time scale',
 "Starting a run forgets the call counts of the previous run (and what was usable for every-N-calls) but keeps the counts of the current sequence and of the whole life of the context; ending a sequence starts the sequence-scoped counts at zero and keeps the life-scoped ones. The recorded execution history and timestamps of a context are exactly the concatenation of all sets its runs have produced so far, including those of abandoned runs.",
 ['histories'],'all sequences of runs, abandoned runs, sequence ends and contexts, with all time scales in conditions and terminations',
 'Tests have at most two or three runs of one scheduler and reset counts by hand.',
 [S],[('resets at run start and pass start',f'{S}:Scheduler.run, _reset_counts_total, _reset_counts_useable'),('sequence end',f'{S}:Scheduler.end_environment_sequence')],
 ['sets yielded by Scheduler.run','Scheduler.execution_list'])
p('C12','The graph is the base graph with its structure conditions in order',
 "At every moment the scheduler's graph equals its original graph transformed by the currently present graph structure conditions one after the other in the order they were added; removing a condition gives the same graph as if it had never been added. The consideration queue is always the layered topological order of that graph and the queue indices its inverse, and the original graph passed by the caller is never changed.",
 ['histories','inputs'],'all histories of adding (singly or in sets), removing and replacing structure conditions through the scheduler or its condition set, on all graphs',
 'Tests add and remove one or two conditions in a fixed order; arbitrary add/remove histories (in particular removal from the middle and changes made directly on the condition set) are not reached.',
 [S,C],[('incremental graph stack',f'{S}:Scheduler._handle_modified_structural_conditions, _push_graph, _pop_graph'),('order bookkeeping',f'{C}:ConditionSet.structural_condition_order')],
 ['Scheduler.graph','Scheduler.consideration_queue','Scheduler.consideration_queue_indices','Scheduler.dependency_dict'])
p('C13','Positioning conditions put the owner where they say',
 "Applying before/after/with conditions to a graph adds the dependency from the owner to every subject, from every subject to the owner, or gives owner and subject the same senders respectively; if all subjects are already so placed the graph is left as it is. Adding or removing an edge changes exactly that edge. No condition modifies the graph it is given, adds or drops nodes, or touches edges that involve neither the owner, its subjects nor reconnection or cycle pruning; with default options an acyclic graph stays acyclic (for placing a node with another one: unless a third node lies on a path between the two).",
 ['inputs'],'all graphs, owners, subject sets, operation arguments and options; node identity by equality',
 'Tests use one base graph of a few nodes with string names and selected operation arguments.',
 [C],[('repositioning conditions',f'{C}:BeforeNodes, AfterNodes, WithNode, AddEdgeTo, RemoveEdgeFrom'),('pre/post-processing',f'{C}:GraphStructureCondition._modify_graph')],
 ['GraphStructureCondition.modify_graph','Scheduler.graph'])
p('C14','Neighbour operations do the set algebra they name',
 "Before cleanup, the new senders and receivers of the owner and of each subject are exactly the named set operation (keep, replace, discard, intersection, union, difference and so on) of its own original neighbours with the original neighbours of the other side, per subject if given per subject. When two operations disagree about an edge the condition is refused with an error unless conflicts are ignored, in which case the receiver operations win.",
 ['inputs'],'all graphs, owners, subject sets, all combinations of operations given by member, name or per-subject mapping, with conflicts ignored or not',
 'Tests check fixed rows of expected graphs; the space of operation combinations times graphs is not enumerable by hand.',
 [C],[('operations',f'{C}:Operation'),('application and conflicts',f'{C}:_GSCWithOperations._process, _get_edge_conflicts')],
 ['GraphStructureCondition.modify_graph','Operation.__call__'])
p('C15','Cleanup: self edges, new cycles and reconnection',
 "If enabled (the default), no new self-dependency remains, cycles are pruned only by removing edges that lie on a cycle, that touch the owner, reverse an original edge or were not in the original graph, and that are not required by the condition, and every original sender and non-subject receiver pair that was connected through the owner is still connected by a path unless that would close a cycle. If disabled, the respective cleanup does not happen.",
 ['inputs'],'all graphs, owners, subjects, operations and the eight combinations of the cleanup options',
 'Tests enable and disable each option on one or two graphs.',
 [C],[('cleanup',f'{C}:_GSCWithOperations._postprocess')],
 ['GraphStructureCondition.modify_graph'])
p('C16','Condition sets keep an exact account of conditions',
 "After any sequence of additions, assignments and removals a condition set holds, per node, the last basic condition and exactly the structure conditions added and not removed, in order; adding a basic condition replaces the previous one with a warning, assigning a condition to a node adds it and drops the structure conditions the node had before, and adding several at once equals adding them one by one. Removal by condition or by unambiguous owner removes exactly that condition and returns it, ambiguous or ownerless removals are refused without any change, and removing something absent changes nothing and returns nothing.",
 ['histories','inputs'],'all sequences of add, add-set, assign, remove operations over basic and structure conditions and owners, on a condition set or through a scheduler',
 'Tests perform short fixed sequences; replacement and removal in the presence of several kinds of conditions is not explored.',
 [C],[('condition set',f'{C}:ConditionSet.add_condition, remove_condition, add_condition_set, __setitem__, conditions')],
 ['ConditionSet.conditions, conditions_basic, conditions_structural, structural_condition_order','return values, warnings and ConditionError'])
p('C17','Cyclic graphs are refused at run time and recoverable',
 "If the current graph contains a cycle of two or more nodes (a self-dependency plays no role in the ordering), starting a run fails with the scheduler's error and has no effect on any execution history or clock; no node of a cyclic graph is ever executed. Creating such a graph only warns, and as soon as the cycle is gone (a condition removed or another one added) runs behave as on the acyclic graph.",
 ['inputs','histories'],'all graphs with and without cycles reached by construction or by any history of structure conditions',
 'Tests use one cyclic graph.',
 [S],[('cycle validation',f'{S}:Scheduler._validate_run_state, _push_graph')],
 ['SchedulerError from Scheduler.run','warnings','Scheduler.graph'])
p('C18','Absolute time advances uniformly and conditions fire on schedule',
 "When absolute-time conditions are present, every consideration set is yielded and stamped with the current absolute time, consecutive stamps of a run differ by one constant step equal to the greatest common divisor of the stated intervals (and fixed points in exact mode) divided by the number of layers in standard mode (or to the scheduler's default step if nothing is stated), and time never goes back or skips a moment at which a node could have executed. A node with a repeat interval executes, when considered, exactly if the time is its layer's offset plus a multiple of the interval and lies within its start and end bounds, inclusively or exclusively as stated, and a time-based termination ends the run at the first step at or after (or strictly after) its time. Time values may be given as numbers, strings or quantities in any unit with the same result.",
 ['inputs','histories','configurations'],'all combinations of intervals, starts, ends, inclusiveness, units, graphs and runs',
 'Tests check the computed step for a few interval lists and three or four schedules.',
 [S,C,T],[('step computation and stamping',f'{S}:Scheduler.run, _get_absolute_consideration_set_execution_unit'),('absolute conditions',f'{C}:TimeInterval, TimeTermination')],
 ['Scheduler.execution_timestamps','sets yielded by Scheduler.run','Clock.time.absolute'])
p('C19','Exact time mode schedules all nodes together',
 "In exact time mode all nodes form one consideration set: every step considers each node once per fixed point, nodes at the same stated time execute in the same set regardless of the graph, and the original layer indices stay available for ordering. Graph structure conditions have no effect on the sets yielded (only a warning), and switching the mode back restores standard scheduling for later runs.",
 ['inputs','configurations','histories'],'all graphs, absolute and ordinary condition assignments, structure conditions, and mode switches between runs',
 'Tests use two linear graphs and one interval setting.',
 [S,C],[('exact time mode',f'{S}:Scheduler.consideration_queue, _in_exact_time_mode')],
 ['sets yielded by Scheduler.run','Scheduler.consideration_queue','Scheduler.consideration_queue_indices','Scheduler.mode'])
p('C20','Graph helpers are exact and do not share state',
 "Converting between dependency dictionaries and directed graphs preserves exactly the nodes and edges in both directions; the helpers for receivers, ancestors, descendants and simple cycles return exactly those relations of the given graph, for any hashable nodes and dependency containers. A scheduler built from either representation behaves the same, and neither the caller's graph nor any result handed out earlier is affected by, or affects, later calls.",
 ['inputs','histories'],'all finite directed graphs (cyclic ones included), node types, dependency container types, and all call sequences including mutation of arguments and results between calls',
 'Tests convert a few literal graphs and never mutate results.',
 [U,S],[('graph utilities',f'{U}:clone_graph, dependency_dict_to_networkx_digraph, networkx_digraph_to_dependency_dict, get_*'),('result cache',f'{U}:cached_graph_function'),('scheduler construction',f'{S}:Scheduler.__init__')],
 ['return values','Scheduler.graph, nodes, consideration_queue'])
p('C21','Time scale aliases are faithful and removable',
 "After setting an alias for a time scale, the alias name denotes that scale everywhere: as member, as attribute of time objects for reading and writing, as constructor argument of a time and in the names of the conditions that carry the scale's name. Removing an alias makes all those names disappear again and leaves everything else, including other aliases and the original names, as before; a scale has one alias at a time, which setting another one replaces; names already taken and unknown scales are refused without effect.",
 ['histories','inputs'],'all sequences of setting and removing aliases of the time scales',
 'Tests set one alias and remove it.',
 [T],[('aliases',f'{T}:set_time_scale_alias, remove_time_scale_alias')],
 ['TimeScale, Time, SimpleTime attributes','graph_scheduler namespace'])
p('C22','Custom functions receive the arguments they ask for',
 "A user function in a condition is called at every evaluation with its stated positional arguments in order, its stated keyword arguments, and those evaluation keyword arguments (scheduler, execution id and any passed to the run) that it names or collects; others are withheld, and evaluation keywords override stated ones of the same name. The result depends only on the arguments, not on which other functions were called before.",
 ['inputs','programs'],'all function signatures (positional, keyword-only, defaulted, variadic) and all stated and evaluation arguments',
 'Tests try a few signatures.',
 [U,C],[('argument pruning',f'{U}:prune_unused_args, call_with_pruned_args'),('evaluation',f'{C}:Condition.is_satisfied')],
 ['arguments received by the user function'])
p('C23','Refused operations leave the scheduler usable and consistent',
 "When adding, assigning or applying a condition is refused with an error, the conditions accepted before it stay in force, and the scheduler's graph again equals its original graph transformed by the conditions that are present as soon as the offending condition is removed. Errors never leave the graph, the queue and the condition set disagreeing, nor affect later unrelated additions, removals or runs.",
 ['fault_sequences','histories'],'all points in a history of condition additions and removals at which an inapplicable condition is introduced, and all later operations',
 'Tests only check that the error is raised.',
 [S,C],[('structural synchronisation',f'{S}:Scheduler._handle_modified_structural_conditions'),('condition set updates',f'{C}:ConditionSet.add_condition')],
 ['Scheduler.graph','Scheduler.consideration_queue','ConditionSet contents','sets yielded by Scheduler.run'])
p('C24','Schedulers are isolated from each other and from their inputs',
 "Two schedulers built from equal or shared graphs, condition dictionaries or termination mappings do not influence each other through later changes to either one, and the objects passed in are not modified. The same program run on equal inputs yields the same sets whatever other schedulers exist or ran before in the process.",
 ['histories','programs'],'all pairs of schedulers sharing inputs, all interleavings of operations on them',
 'Tests build one scheduler per test from fresh literals.',
 [S,U],[('input copying',f'{S}:Scheduler.__init__'),('process-wide caches',f'{U}:cached_graph_function, prune_unused_args')],
 ['Scheduler.graph, conditions, termination_conds','sets yielded by Scheduler.run','the caller\'s objects'])
p('C25','Ill-formed specifications are refused and well-formed ones accepted',
 "A specification that cannot mean anything is refused with the library's own error, and leaves the objects it was given as they were; one that can is never refused, however its parts are stated. A time interval needs a repeat, start or end, and must not start later than it ends (compared as times, whatever the units); a threshold needs one of the six comparators and an attribute its dependency has, or one its own validator accepts (whose error is passed on); a structure condition needs at least one node (exactly one for the single-node kinds), all hashable, and, where subject operations are given as a dictionary, one for each of its nodes and for no other; none of its nodes can become its owner, and it is applied only with an owner and to a graph holding owner and nodes; a custom structure condition needs a callable, in which self, if there is one, comes first; a scheduler needs a dependency dictionary or a directed graph. Conditions on calls and time say so when evaluated without a scheduler, a combined call count when it has no number, and a finished condition when a node cannot tell. Suspicious but legal ones (tolerances with an inequality, an owner that is the condition's own dependency, a position already held, an edge to remove that is not there) are accepted with a warning, others without.",
 ['inputs','configurations'],'all arguments of the constructors of conditions and schedulers, their owners and the graphs they are applied to, in all forms in which they can be stated',
 'Tests try one or two ill-formed specifications of some of the kinds.',
 [C,S],[('time intervals',f'{C}:TimeInterval.__init__'),('thresholds',f'{C}:Threshold.__init__, validate_parameter'),('structure conditions',f'{C}:_GSCUsingNodes._validate_nodes, _validate_owner, _validate_graph, _GSCWithOperations._handle_subject_arg'),('owners',f'{C}:_DependencyValidation'),('graphs',f'{S}:Scheduler.__init__')],
 ['ConditionError and SchedulerError','warnings','attributes of conditions','Scheduler.graph'])
p('C26','An error raised by a user function leaves nothing half done',
 "When a function of the user (a condition's function, a node's finished status, a parameter a threshold reads) raises during a run, the error reaches the caller of the run and that run is over. Nothing that was not handed out counts as executed: the execution history, all call counts, the clock and what every other condition says afterwards are those of a run given up after the last set handed out. A function that has to be looked at to decide about the set is never passed over silently. Later runs, of the same execution context or another one, go on from there normally. The same holds for an error thrown into a suspended run, and for a condition evaluated by itself: the error reaches the caller, and an at-most-N wrapper that raised was not satisfied.",
 ['fault_sequences','schedules','histories'],'all points of a run at which a user function can raise (any node of a consideration set, with any subset of the others already selected; termination conditions), all kinds of exceptions, and all later operations',
 'No test lets a function raise in the middle of a run and goes on with the scheduler.',
 [S,C],[('filling of consideration sets and counts',f'{S}:Scheduler.run'),('evaluation of conditions',f'{C}:Condition.is_satisfied, CompositeCondition, Not, NWhen, While, WhenFinished, Threshold')],
 ['exceptions at the caller of next()','execution_list','sets yielded by later runs','the clock','answers of conditions'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
