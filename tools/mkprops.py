"""Writes properties.jsonl (one source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               **({'state': [dict(name=n, meaning=n, where=files[0]) for n in state]} if state else {}),
                               **({'observe_at': observe} if observe else {}))))

p('C01', 'An update takes effect on exactly the named item and only on the named values',
  "After pm.update of an item (by keyword, by dict, or by assigning to a Selector view of the item) every later get, run and attribute read of that item, in whatever way it is reached, uses the new values, and values not named keep what they had. This holds whether or not the item had been loaded before, for functions, classes and specific classes, for any value (including arrays, dataframes, None and views of other items) and any parameter name that update itself does not use (d_, section_path_str, pyfileconf_persist). Values which compare equal count as the same value (assigning 1 over True is no update). No other item of this or another manager changes, except items that depend on the updated one.",
  ['inputs', 'histories', 'configurations'], "every sequence of updates, gets, runs and reads over several items and managers, every item kind, nesting depth, parameter name and value type",
  "Tests update one item once and look at that item; interference between items, orders of update and load, and unusual values need long mixed histories.",
  ['pyfileconf/main.py', 'pyfileconf/config/models/manager.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/basemodels/config.py', 'pyfileconf/config/logic/apply.py', 'pyfileconf/selector/models/selector.py'],
  [('PipelineManager.update/_update', 'pyfileconf/main.py'), ('ConfigManager.update', 'pyfileconf/config/models/manager.py'), ('ConfigBase.would_update/_values_are_equal', 'pyfileconf/basemodels/config.py'), ('Runner.update', 'pyfileconf/runner/models/runner.py'), ('apply_config', 'pyfileconf/config/logic/apply.py')],
  state=['config of each item', 'loaded objects'], observe=['pm.get', 'pm.run', 'Selector attribute reads'])

p('C02', 'Refresh rereads the file, keeps persistent updates and drops transient ones',
  "After pm.refresh of an item, each of its values is the persistent update made since the last load or reset if there is one, else the value a section config gave it then, and otherwise what the config file says now (with references to other items evaluated again). Updates made with pyfileconf_persist=False are gone where the file differs from them, and a loaded object is changed in place. A refresh that would change nothing has no visible effect and a refresh never changes the file.",
  ['histories', 'inputs'], "every interleaving of persistent and transient updates, file edits, loads, resets and refreshes of an item",
  "The outcome depends on the whole history of updates since the last load; tests cover single-step histories.",
  ['pyfileconf/basemodels/config.py', 'pyfileconf/config/models/manager.py', 'pyfileconf/runner/models/runner.py'],
  [('ConfigBase.refresh/change_from_refresh/_applied_updates', 'pyfileconf/basemodels/config.py'), ('ConfigManager.refresh', 'pyfileconf/config/models/manager.py'), ('Runner.refresh', 'pyfileconf/runner/models/runner.py')],
  state=['_applied_updates', 'config file contents'])

p('C03', 'Reset returns the named item to its config file and forgets its updates',
  "After pm.reset of an item its values are exactly what its config file says at that time (with section configs applied as when first loaded), its loaded object is changed in place to those values, and updates made before the reset (persistent or not, even ones that happened to equal the file) never reappear in later refreshes. Only that item changes, plus items that depend on it. This also holds for items that were never loaded, and BatchUpdater.reset does the same across managers.",
  ['histories', 'inputs'], "every history of updates, file edits, refreshes and loads before and after the reset, for every item kind",
  "Needs reset combined with later refreshes and file edits, and updates which cancel out; tests reset once and compare.",
  ['pyfileconf/config/models/manager.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/batch.py'],
  [('ConfigManager.reset/set', 'pyfileconf/config/models/manager.py'), ('Runner.reset', 'pyfileconf/runner/models/runner.py'), ('BatchUpdater.reset', 'pyfileconf/batch.py')],
  state=['config of each item', '_applied_updates'])

p('C04', 'Reload rebuilds the whole manager from the files and touches nothing else',
  "After pm.reload() every item of the manager has the values of its config file and sections as they are now: no earlier update, persistent or not, survives, and edits to the dict files, config files and the source modules named by the dict files (also modules which could not be imported at an earlier failed load) take effect, with config files scaffolded for new items. Items of other managers keep their values, updates and loaded objects. A load that raises may have completed config files already, but leaves things so that calling load again after repairing the cause succeeds as if the failure had not happened.",
  ['histories', 'configurations', 'crash_points'], "every history before the reload, every kind of edit, and failures at any file read during the load",
  "Tests reload after single edits; stale state left by earlier histories, failed loads or by other managers needs generated histories.",
  ['pyfileconf/main.py', 'pyfileconf/imports/models/tracker.py', 'pyfileconf/config/models/section.py'],
  [('PipelineManager.load/reload/_wipe_loaded_modules', 'pyfileconf/main.py'), ('ImportTracker', 'pyfileconf/imports/models/tracker.py'), ('ConfigSection.from_files', 'pyfileconf/config/models/section.py')],
  state=['sys.modules', 'config sections', 'loaded objects'])

p('C05', 'Section configs override item configs, inner sections override outer ones',
  "When an item is first loaded, each of its parameters has the value from the innermost section config (section.py of its section, of an enclosing section, or of the project) that defines that name, and otherwise the value of its own config file. A value in a section config affects items in that section at any depth and no others, names which an item does not accept are ignored for that item, and the precedence is the same for functions, classes and specific classes. Section configs are applied when an item is first loaded or is reset; later updates win over them, and refreshes keep them.",
  ['configurations', 'inputs', 'histories'], "every assignment of values to any subset of project, outer, inner section configs and item configs, at every nesting depth",
  "The precedence is a function of all subsets of levels and depths; no test uses section.py values at all.",
  ['pyfileconf/config/models/manager.py', 'pyfileconf/config/models/section.py', 'pyfileconf/pipelines/models/config.py'],
  [('ConfigManager.get', 'pyfileconf/config/models/manager.py'), ('ConfigSection.from_files/__getattr__', 'pyfileconf/config/models/section.py'), ('FunctionConfig.for_function', 'pyfileconf/pipelines/models/config.py')],
  state=['section configs'])

p('C06', 'Items whose config files read other items follow every change of those items',
  "If the config file of a loaded item reads an attribute of another item (of the same or another manager) through the Selector, then after any update, refresh or reset which changes that attribute, the dependent value is what the file evaluates to with the new attribute, unless a persistent update or a section config (or, until the next refresh, a transient update) overrides that value. This is transitive through chains and fan-out of dependents across managers, and needs no further call. Items that do not depend on the changed item are not touched.",
  ['histories', 'configurations'], "every acyclic dependency graph between items of several managers, every history of updates, resets, refreshes, reloads and file edits",
  "Tests check chains of two or three items after one update; the guarantee is over all graphs and histories.",
  ['pyfileconf/pmcontext/main.py', 'pyfileconf/pmcontext/stack.py', 'pyfileconf/config/models/manager.py', 'pyfileconf/selector/models/selector.py', 'pyfileconf/plugin/default_hooks.py'],
  [('ConfigManager.refresh_dependent_configs', 'pyfileconf/config/models/manager.py'), ('PyFileConfContext.add_config_dependency', 'pyfileconf/pmcontext/main.py'), ('Selector._get_real_item/__contains__', 'pyfileconf/selector/models/selector.py'), ('pyfileconf_post_config_changed', 'pyfileconf/plugin/default_hooks.py')],
  state=['context.force_update_dependencies', 'context.config_dependencies', 'context.stack'])

p('C07', 'What an item uses while running is recorded and the action stack stays balanced',
  "While an item runs, every item it reaches by running it, getting it, calling a view of it or reading an attribute of a view (directly, or by a config file loaded meanwhile) is recorded in context.config_dependencies and force_update_dependencies as something the innermost running item depends on (never itself), and nothing else is recorded. While an item runs, context.currently_running_section_path_str is the full section path of the innermost running item. When an API call has returned or raised, nothing is running or being loaded any more, so failed runs or loads never distort later dependencies.",
  ['histories', 'configurations', 'crash_points'], "every nesting of runs, gets, calls and reads between items of several managers, with exceptions raised at any depth",
  "Tests use one level of nesting and no exceptions; the recorded relation depends on nesting, caching and failures.",
  ['pyfileconf/pmcontext/main.py', 'pyfileconf/pmcontext/stack.py', 'pyfileconf/pmcontext/tracing.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/selector/models/itemview.py'],
  [('StackTracker', 'pyfileconf/pmcontext/tracing.py'), ('Runner._add_to_config_dependencies_if_necessary', 'pyfileconf/runner/models/runner.py'), ('ItemView._add_to_config_dependencies_if_necessary', 'pyfileconf/selector/models/itemview.py')],
  state=['context.stack', 'context.config_dependencies', 'context.force_update_dependencies'])

p('C08', 'Each item has one object per load, however it is reached, changed in place',
  "Between two loads of a manager, pm.get by string, pm.get by view, attribute access on the manager, Selector view .item, and the object used by run are the same object for an item (getting a section shows classes as partials, which are not these objects), different items have different objects (also when they share a function or class), and the object carries its full section path. Update, refresh and reset change that object in place: keywords of a function's partial, and for class instances the constructor run again on the same instance or _pyfileconf_update_ called once with the accepted values when the class defines it. An update that changes no value does not touch the object.",
  ['histories', 'configurations'], "every order of accesses through every route, interleaved with updates, for every item kind and several items per function or class",
  "Tests compare two routes on a fresh manager; caching faults appear in particular orders of accesses.",
  ['pyfileconf/runner/models/runner.py', 'pyfileconf/config/logic/apply.py', 'pyfileconf/main.py', 'pyfileconf/selector/models/selector.py'],
  [('Runner._get_one_func_with_config/_get_one_obj_with_config/_loaded_objects', 'pyfileconf/runner/models/runner.py'), ('apply_config', 'pyfileconf/config/logic/apply.py'), ('Runner.__getattr__', 'pyfileconf/runner/models/runner.py')],
  state=['Runner._loaded_objects'])

p('C09', 'Run executes the named items once, in order, with results shaped like the input',
  "pm.run of one function, class or specific class item returns the result of executing it once with its current config (calling the function, the instance, or the execute_attr of the specific class dict the item belongs to). A section of the main pipeline dict returns a list with one entry per member in definition order, nested like the section, and a list (of paths or views, of any length) returns a list with one entry per element in order. Results added by pyfileconf_post_run plugins are appended and items added by pyfileconf_pre_run plugins are run after the requested ones; nothing else is executed.",
  ['inputs', 'configurations'], "every pipeline dict structure, every list of paths, sections and views including repeats, one-element and empty lists, several specific class dicts with the same class",
  "Result shape and order are a function of arbitrary nested structures; tests use one or two items.",
  ['pyfileconf/runner/models/runner.py', 'pyfileconf/main.py', 'pyfileconf/logic/combine.py'],
  [('Runner.run/_run/_run_section', 'pyfileconf/runner/models/runner.py'), ('PipelineManager.run', 'pyfileconf/main.py'), ('combine_items_into_list...', 'pyfileconf/logic/combine.py')],
  observe=['pm.run'])

p('C10', 'Failing items do not disturb the others: force_continue, auto_pdb and plain runs',
  "With force_continue, pm.run of a list executes every element once in order, returns the results of the elements that did not raise, in order, and logs an error for each that did; a single failing item returns an empty list. With auto_pdb the debug function is called exactly once for a failing run and the run returns None, and a run that does not raise never calls it. Without either option the first exception propagates unchanged and later elements are not executed; in every mode later updates, gets and runs behave as if the failing call had not been made.",
  ['inputs', 'crash_points', 'histories'], "every list of items with any subset of them raising, every mode, followed by further operations",
  "Tests have one failing function; which elements are kept and what state survives depends on the pattern of failures.",
  ['pyfileconf/main.py', 'pyfileconf/debug.py', 'pyfileconf/runner/models/runner.py'],
  [('_run_with_force_continue', 'pyfileconf/main.py'), ('_try_except_run_func_except_user_interrupts', 'pyfileconf/main.py'), ('_run_with_auto_pdb', 'pyfileconf/main.py'), ('pdb_post_mortem_or_passed_debug_fn', 'pyfileconf/debug.py')])

p('C11', 'Product runs cover every combination once, each under exactly its own config',
  "run_product, run_product_gen and IterativeRunner run one case per element of the product of the config updates grouped by section path, in itertools.product order, and pair each case with its result. Each result is what the items return when every varied config has the values of the case and, for values varied only in other cases, the value it had before the product run; values not varied keep following their files and dependencies. This holds across managers, when configs are changed between cases of the generator, when a runner is run repeatedly, and for any value types.",
  ['inputs', 'histories', 'configurations'], "every list of config updates (repeated paths, different key sets, several managers), run items, and interleaved outside updates",
  "The combinatorial cases and leftovers of earlier cases need many products; tests use two cases.",
  ['pyfileconf/iterate.py', 'pyfileconf/plugin/default_hooks.py', 'pyfileconf/batch.py'],
  [('get_config_product', 'pyfileconf/iterate.py'), ('IterativeRunner.run/run_gen/_run_case/_fill_case_with_defaults', 'pyfileconf/iterate.py'), ('pyfileconf_iter_update_for_case', 'pyfileconf/plugin/default_hooks.py')],
  state=['IterativeRunner.defaults', 'IterativeRunner.cases'])

p('C12', 'A batch update equals the same updates made one at a time',
  "pm.update_batch and BatchUpdater.update (with or without a base section path, with paths or views, over several managers) leave every item in the same state as calling update on the named manager for each entry in order, including persistence flags and effects on dependent items. The entries passed in are not modified. Only the batch hooks are called for a batch (once before and once after), and entries returned by a pyfileconf_pre_update_batch plugin are applied as well.",
  ['inputs', 'histories', 'configurations'], "every list of updates over items of several managers, with repeated and conflicting entries",
  "Order and interaction of entries matters only for batches with repeated or dependent items across managers.",
  ['pyfileconf/batch.py', 'pyfileconf/main.py', 'pyfileconf/sectionpath/sectionpath.py', 'pyfileconf/plugin/default_hooks.py'],
  [('BatchUpdater.update', 'pyfileconf/batch.py'), ('PipelineManager.update_batch/_update', 'pyfileconf/main.py'), ('SectionPath.from_ambiguous', 'pyfileconf/sectionpath/sectionpath.py')])

p('C13', 'Hooks report every config change once before and once after it',
  "pyfileconf_pre_config_changed and pyfileconf_post_config_changed are each called once, in that order, with the changing item's path and the values applied, for every update, refresh or reset which changes a value of an existing item's config (also when the change is a refresh of a dependent item, and also when the item is not loaded), and not at all when nothing changes. pyfileconf_pre_update and pyfileconf_post_update surround every pm.update, and values returned by a pre_update plugin are applied as part of that update, overriding the passed values. Registering and removing plugins takes effect from the next call and never changes what happens to configs otherwise.",
  ['histories', 'inputs', 'configurations'], "every history of updates, refreshes, resets and batches with effective and ineffective changes, with any set of plugins",
  "Exactly-once over dependent chains and no-op changes is a property of histories; tests count single calls.",
  ['pyfileconf/config/models/manager.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/main.py', 'pyfileconf/plugin/hookspecs.py'],
  [('ConfigManager._track_pre_update/track_post_update', 'pyfileconf/config/models/manager.py'), ('PipelineManager.update', 'pyfileconf/main.py'), ('plugin hooks', 'pyfileconf/plugin/hookspecs.py')])

p('C14', 'Scaffolding creates missing config files and entries and never loses user edits',
  "Loading a manager leaves, for every item of the dict files, a config file in the folder given by its section path, which assigns every parameter that can be passed by keyword: the value the user's file already assigns, and otherwise the parameter's default (None without one), with annotations and imports the defaults and annotations need; the Selector, or for the items of a specific class dict the always_import_strs and always_assign_strs it has instead; and a section.py in the folder of every section of the main dict files. All statements, comments, and imports the user wrote in existing config files keep their effect and their text order, section.py files are never overwritten, files of removed items stay, and loading again without changes changes no file (newlines at the end of a file aside). Evaluating the file gives the same values before and after a load.",
  ['inputs', 'configurations', 'histories'], "every function or class signature of the supported kinds, every existing file content, every change of signature between loads, repeated loads",
  "Tests compare a few generated files literally; preservation must hold for all user edits and signature changes.",
  ['pyfileconf/pipelines/models/collection.py', 'pyfileconf/data/models/collection.py', 'pyfileconf/io/file/write/base.py', 'pyfileconf/io/file/load/lazy/base/impassign.py', 'pyfileconf/config/logic/load.py', 'pyfileconf/assignments/models/container.py'],
  [('_output_config_files', 'pyfileconf/pipelines/models/collection.py'), ('FileStr', 'pyfileconf/io/file/write/base.py'), ('_split_lines_into_import_and_assignment', 'pyfileconf/config/logic/load.py'), ('FunctionConfigExtractor', 'pyfileconf/io/func/load/config.py')],
  state=['config files on disk'])

p('C15', 'Created entries persist and behave as if written into the dict file',
  "After pm.create(section, func_or_class) or pm.create('dictname.section.key') the new item can be selected, got, updated and run at once with the defaults of its function or class, is found again by reload and by a new manager on the same folder, and has a scaffolded config file. All earlier entries of the dict file, and their configs, updates and objects, are as before. A create call that is rejected (too short a path for a specific class dict, missing or superfluous func_or_class) changes no file and no item.",
  ['inputs', 'histories'], "every existing dict structure, every new or existing section path, sequences of creates mixed with updates and reloads",
  "Tests create one or two entries into near-empty dicts.",
  ['pyfileconf/main.py', 'pyfileconf/dictfiles/modify.py', 'pyfileconf/basemodels/registrar.py', 'pyfileconf/config/models/manager.py'],
  [('PipelineManager.create', 'pyfileconf/main.py'), ('add_item_into_nested_dict_at_section_path', 'pyfileconf/dictfiles/modify.py'), ('Registrar.set', 'pyfileconf/basemodels/registrar.py'), ('ConfigManager._set_func_or_config_with_create', 'pyfileconf/config/models/manager.py')],
  state=['pipeline_dict.py', '<name>_dict.py'])

p('C16', 'Selector views are lazy, transparent stand-ins for the items they name',
  "A Selector contains exactly the section and item paths the managers had when it was made, and dir() of managers and of views of managers and sections lists, besides methods, exactly their sections and items. A view of an item has the type, attributes, call behaviour and deep copy of the item's current object, equals and hashes like any view of the same path and unlike any other, and reading it always reflects the current config. Building Selectors and views, comparing, hashing, testing membership and asking for the type never executes a config file, loads an item or changes a config; only attribute access, calling and copying do, and only for the items needed.",
  ['inputs', 'histories', 'configurations'], "every path over several managers and nesting depths, every order of view operations interleaved with updates",
  "Laziness and transparency are claims about all operations on all paths in any order; tests check a few paths.",
  ['pyfileconf/selector/models/selector.py', 'pyfileconf/selector/models/itemview.py', 'pyfileconf/basemodels/collection.py'],
  [('ItemView.__getattr__/__call__/__eq__/__hash__/__class__/__deepcopy__', 'pyfileconf/selector/models/itemview.py'), ('Selector.__contains__/get_type/_get_real_item', 'pyfileconf/selector/models/selector.py'), ('Collection.get', 'pyfileconf/basemodels/collection.py')])

p('C17', 'Options hold until reset, with one log file handler matching log_folder',
  "Each option reads as the last value set since its last reset, by whichever of the equivalent ways it was set or reset, and as its default otherwise; leaving the options context manager, normally or by an exception, resets all options. At any time the pyfileconf logger has exactly one rotating file handler if log_folder is set and none otherwise, writing to pyfileconf.log in that folder with the rotation settings in force when the folder was set. A set that cannot take effect raises and changes nothing; no other sequence of set and reset calls raises, and setting one option never changes another.",
  ['histories', 'inputs'], "every sequence of set, set_options, value assignment, reset, reset_options, and (nested) context use, with folders changing between each other and None",
  "Tests set and reset each option once; handler bookkeeping goes wrong only in sequences.",
  ['pyfileconf/opts/__init__.py', 'pyfileconf/opts/filelog.py', 'pyfileconf/logger/logger.py'],
  [('PyfileconfOption.value', 'pyfileconf/opts/__init__.py'), ('PyfileconfOptionsManager', 'pyfileconf/opts/__init__.py'), ('add_file_handler/remove_file_handler', 'pyfileconf/logger/logger.py')],
  state=['options', 'logger.handlers'])

p('C18', 'Logging of stdout captures what items print and always gives stdout back',
  "With the log_stdout option on when pm.run is called, everything the executed items print during it is written to the pyfileconf log, in order, and nothing of it goes to stdout directly. After the run has returned or raised, sys.stdout is the same object as before the run, also for runs nested inside running items, and in force_continue mode. A run started with the option off, outside any captured run, never replaces sys.stdout.",
  ['histories', 'crash_points', 'configurations'], "every sequence of runs with the option changing in between, nested runs, and items which raise",
  "Tests run one printing function that does not raise.",
  ['pyfileconf/logger/bind_stdout.py', 'pyfileconf/main.py'],
  [('stdout_also_logged', 'pyfileconf/logger/bind_stdout.py'), ('PipelineManager.run', 'pyfileconf/main.py')],
  state=['sys.stdout'])

p('C19', 'Lookups that fail or stop half way have no effect on anything later',
  "Looking up a path that does not exist, or only part of a path (a section), through attributes of a manager, pm.get, pm.run, pm.update, pm.refresh, pm.reset or the Selector either gives the section or raises, and changes no config, object, file, dependency or later lookup. Every later lookup of an existing item, by any route, gives the same result it would have given without it. Items of the same name in different sections, dicts or managers are never mixed up.",
  ['inputs', 'histories'], "every path built from existing and missing names, prefixes and extensions of paths, by every route, interleaved with other operations",
  "Tests look up valid paths; residue of failed lookups shows only in later operations.",
  ['pyfileconf/runner/models/runner.py', 'pyfileconf/main.py', 'pyfileconf/basemodels/collection.py', 'pyfileconf/selector/models/itemview.py', 'pyfileconf/logic/get.py'],
  [('Runner.__getattr__', 'pyfileconf/runner/models/runner.py'), ('Collection.get', 'pyfileconf/basemodels/collection.py'), ('ItemView.__getattr__', 'pyfileconf/selector/models/itemview.py')],
  state=['Runner lookup state'])

p('C20', 'Config files run only when their item is needed, and errors stay with that item',
  "Loading or reloading managers, building Selectors and listing items executes no item's config file; a config file is executed when its item is first got, run, read, updated or depended on, and again only by refresh or reset of that item (or of what it depends on) or after a reload. Using one item executes the config files of that item and of the items its config reads, and no others. An error in one item's config file therefore affects only operations that need that item, and once the file is repaired the item works.",
  ['histories', 'crash_points', 'configurations'], "every sequence of operations over items some of whose config files raise, repaired at any time",
  "Tests put an error in one file and check that load succeeds; which files run when is a claim over all operations.",
  ['pyfileconf/config/models/section.py', 'pyfileconf/io/file/load/active/loader.py', 'pyfileconf/config/models/manager.py', 'pyfileconf/io/file/load/active/userdef.py'],
  [('ConfigSection.from_files (lazy ActiveFunctionConfigFile)', 'pyfileconf/config/models/section.py'), ('ActiveConfigFileLoader.load', 'pyfileconf/io/file/load/active/loader.py'), ('ConfigManager._get_func_or_section_configs', 'pyfileconf/config/models/manager.py')],
  state=['loaded configs'])

p('C21', 'Creating managers completes projects without loss, and finds managers by name and file',
  "Creating a PipelineManager leaves its project complete - the folder, the config folder (default_config_folder_name), pipeline_dict.py, <name>_dict.py of every specific class dict, and the log folder if the option is set - creating exactly what is missing (dict files without items) and changing nothing that exists; a refused construction (auto_pdb together with force_continue) creates and registers nothing. The new manager becomes the active one of its name, with a warning exactly if it replaces another, and dropping references to the replaced one does not change that; all other managers stay. get_manager_by_section_path_str gives the active manager of the first part of the path, get_manager_by_filepath an active manager whose folder contains the file; both raise if there is none, as they do for all after context.reset. A manager which is not loaded has no items in a Selector, lists none in dir(), and does not affect the use of other managers.",
  ['inputs', 'configurations', 'histories'], "every state of the files of a project when a manager is created, every sequence of creating, replacing, loading and finding managers over several projects with similar folder names, mixed with user edits and removals of files",
  "Tests create complete projects or none, and one manager at a time; partial projects, replaced managers and similar names need sequences.",
  ['pyfileconf/main.py', 'pyfileconf/selector/models/selector.py', 'pyfileconf/pmcontext/main.py'],
  [('PipelineManager.__init__/_create_project_if_needed/get_manager_by_filepath/get_manager_by_section_path_str/__del__', 'pyfileconf/main.py'), ('create_project', 'pyfileconf/main.py'), ('Selector._load_structure', 'pyfileconf/selector/models/selector.py')],
  state=['project folders', 'context.active_managers'])

p('C22', 'Exactly the registered plugins act, and the default behaviours can be removed and reset',
  "At any time exactly the plugins registered at that time act, on all managers and all operations, whether they were created or started before or after the registration. After remove_default_plugins, and only until reset_plugins, changes of a config are not passed on to the items which depend on it, batches apply only the entries which plugins give, and products run only the cases which plugins give, without updating configs for them; all else (gets, updates of the named item, refreshes, resets, runs) works as with them, and hooks of other plugins are called as before. reset_plugins brings the defaults back and removes all other plugins. Registering, removing and resetting plugins changes no config, object or dependency: with the defaults back, dependents are refreshed as if they had never been away.",
  ['histories', 'configurations'], "every sequence of registering, unregistering, removing defaults and resetting, mixed with updates, batches, products, refreshes, runs and reloads",
  "Tests register one plugin per hook in a fresh state; which plugins act after a sequence of changes is a claim about histories.",
  ['pyfileconf/plugin/manager_utils.py', 'pyfileconf/plugin/default_hooks.py', 'pyfileconf/plugin/hookspecs.py', 'pyfileconf/iterate.py', 'pyfileconf/batch.py', 'pyfileconf/config/models/manager.py', 'pyfileconf/main.py'],
  [('reset_plugins/remove_default_plugins', 'pyfileconf/plugin/manager_utils.py'), ('default hooks', 'pyfileconf/plugin/default_hooks.py'), ('IterativeRunner.get_cases/_run_case', 'pyfileconf/iterate.py'), ('BatchUpdater.update', 'pyfileconf/batch.py'), ('ConfigManager track_pre_update/track_post_update', 'pyfileconf/config/models/manager.py')],
  state=['registered plugins'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P), max(len(x['title']) for x in P))
