From df81b7ead884d9967797e4ead2108bd2f7a90bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 01/47] fix: attribute look up of an item is not affected by
 previous look ups which failed or stopped at a section

---
 pyfileconf/runner/models/runner.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 0218935..87d00e2 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -46,23 +46,23 @@ class Runner(ReprMixin):
     def __getattr__(self, item):
         # TODO [#14]: find way of doing runner look ups with fewer side effects
         # TODO [#15]: find a way to get __getattr__ logic for runner working for sections
-        self._full_getattr += item
-        try:
-            func_or_collection = self._get_func_or_collection(self._full_getattr)
-        except KeyError as e:
-            self._full_getattr = '' # didn't find an item, must be incorrect path. reset total path
-            raise e
+        if '_full_getattr' not in self.__dict__:
+            # Not initialized, so there is nothing to look up in
+            raise AttributeError(item)
+        full_getattr = self._full_getattr + item
+        func_or_collection = self._get_func_or_collection(full_getattr)
 
         if isinstance(func_or_collection, (PipelineCollection, SpecificClassCollection)):
-            # Got section, need to keep going. Return self
-            self._full_getattr += '.' # add period to separate next section
-            return self
+            # Got section, need to keep going. Return a runner which shares everything with
+            # this runner but looks up within the section, so that a look up which fails or stops
+            # at a section does not affect any other look ups
+            section_runner = self.__class__.__new__(self.__class__)
+            section_runner.__dict__.update(self.__dict__)
+            section_runner._full_getattr = full_getattr + '.'  # add period to separate next section
+            return section_runner
         else:
             # Got function or class, return the function or class itself
-            full_getattr = self._full_getattr
-            self._full_getattr = ''  # found the item, reset for next time
-            configured_func_or_class = self.get(full_getattr)
-            return configured_func_or_class
+            return self.get(full_getattr)
 
     # TODO [#16]: this may work once __getattr__ works with sections
     # def __dir__(self):
-- 
2.43.0


From 7223bb0d44183a809acc69d8df55cb0b7b77eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 02/47] fix: running a list of one item returns a list with one
 result

---
 pyfileconf/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 31f9ecf..8f403fd 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -148,10 +148,14 @@ class PipelineManager:
         additional_items = plugin_manager.plm.hook.pyfileconf_pre_run(
             section_path_str_or_list=section_path_str_or_list, pm=self
         )
+        list_passed = isinstance(str_or_list_only, list)
         # Will be converted into list always
         str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
             str_or_list_only, additional_items
         )
+        if list_passed and not isinstance(str_or_list_only, list):
+            # A list of results must be returned when a list was passed, even if it has only one item
+            str_or_list_only = [str_or_list_only]
 
         if options.log_stdout:
             with stdout_also_logged():
-- 
2.43.0


From 570b9423d178cc2654863213ddd8108e49686dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 03/47] fix: running a section runs the classes in it rather
 than raising an exception

---
 pyfileconf/runner/models/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 87d00e2..a74c759 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -168,9 +168,9 @@ class Runner(ReprMixin):
                 # got another section within this section. recursively call run section
                 results.append(self._run_section(subsection_path_str))
             elif self._is_specific_class(section_or_callable):
-                results.append(self._run_one_specific_class(section_path_str))
+                results.append(self._run_one_specific_class(subsection_path_str))
             elif inspect.isclass(section_or_callable):
-                results.append(self._run_one_class(section_path_str))
+                results.append(self._run_one_class(subsection_path_str))
             elif callable(section_or_callable):
                 # run function
                 results.append(self._run_one_func(subsection_path_str))
-- 
2.43.0


From 4db04987d771561114ca5acd5b03feba92be66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 04/47] fix: restore stdout when an item raises an exception
 while stdout is being logged

---
 pyfileconf/logger/bind_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/logger/bind_stdout.py b/pyfileconf/logger/bind_stdout.py
index 559c2bd..599aae1 100644
--- a/pyfileconf/logger/bind_stdout.py
+++ b/pyfileconf/logger/bind_stdout.py
@@ -8,8 +8,10 @@ from pyfileconf.logger.logger import logger
 def stdout_also_logged():
     stdout_logger = StdoutLogger()
     sys.stdout = stdout_logger  # type: ignore
-    yield stdout_logger
-    sys.stdout = stdout_logger.terminal
+    try:
+        yield stdout_logger
+    finally:
+        sys.stdout = stdout_logger.terminal
 
 
 class StdoutLogger(object):
-- 
2.43.0


From 293405e9cf2b6ae6e5108bffc69241494cc4bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 05/47] fix: changing log_folder moves the log file instead of
 adding another, so that options can still be reset

---
 pyfileconf/logger/logger.py | 4 ++++
 pyfileconf/opts/filelog.py  | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 64046f0..6f88e43 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -43,6 +43,10 @@ def add_file_handler():
     logger.addHandler(fh)
 
 
+def has_file_handler() -> bool:
+    return any(isinstance(h, TimedRotatingFileHandler) for h in logger.handlers)
+
+
 def remove_file_handler():
     timed_handlers = [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
     if len(timed_handlers) != 1:
diff --git a/pyfileconf/opts/filelog.py b/pyfileconf/opts/filelog.py
index b33147e..9ad9840 100644
--- a/pyfileconf/opts/filelog.py
+++ b/pyfileconf/opts/filelog.py
@@ -1,10 +1,13 @@
 from typing import Optional
 
-from pyfileconf.logger.logger import add_file_handler, remove_file_handler
+from pyfileconf.logger.logger import add_file_handler, has_file_handler, remove_file_handler
 
 
 def add_file_handler_if_log_folder_exists_else_remove_handler(attr_name: str, log_folder: Optional[str]):
     if log_folder is not None:
+        if has_file_handler():
+            # Changing from one log folder to another, must not keep logging into the original one
+            remove_file_handler()
         add_file_handler()
     else:
         remove_file_handler()
-- 
2.43.0


From d0356dc55bc115475d48dc118cbff309c3de0493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 06/47] fix: allow items which have parameters named d, E, or
 config_ to be updated, refreshed, and reset

---
 pyfileconf/basemodels/config.py     | 2 +-
 pyfileconf/config/models/manager.py | 6 +++---
 pyfileconf/runner/models/runner.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index b1ed6f5..d71b1e5 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -130,7 +130,7 @@ class ConfigBase(dict):
         # Reload from file
         new_config = self._get_new_config_from_file()
         all_updates = {**new_config, **self._applied_updates}
-        self.update(pyfileconf_persist=False, **all_updates)
+        self.update(all_updates, pyfileconf_persist=False)
         return all_updates
 
     def would_update(self, E=None, **F) -> bool:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 2dd815e..ef76327 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -59,10 +59,10 @@ class ConfigManager(ReprMixin):
         if config_obj is None:
             raise ConfigManagerNotLoadedException('no config to update')
         would_update = self._determine_and_track_if_config_would_be_updated(
-            config_obj, section_path_str, d_, **kwargs
+            config_obj, section_path_str, {**(d_ or {}), **kwargs}
         )
         if would_update:
-            config_obj.update(d_, pyfileconf_persist=pyfileconf_persist, **kwargs)
+            config_obj.update({**(d_ or {}), **kwargs}, pyfileconf_persist=pyfileconf_persist)
         return config_obj, would_update
 
     def refresh(self, section_path_str: str) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
@@ -192,7 +192,7 @@ class ConfigManager(ReprMixin):
         assert current_config is not None  # should never fail this, for mypy
 
         # Not a new config, need to actually determine whether would be updated
-        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, **value)
+        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, value)
         if would_update:
             self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
         return value, would_update
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index a74c759..a571db7 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -380,7 +380,7 @@ class Runner(ReprMixin):
 
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], new_config)
-            self._config.track_post_update(new_config, section_path_str, d_, **kwargs)
+            self._config.track_post_update(new_config, section_path_str, {**(d_ or {}), **kwargs})
 
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> None:
         """
@@ -390,7 +390,7 @@ class Runner(ReprMixin):
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], default)
-            self._config.track_post_update(default, section_path_str, **default)
+            self._config.track_post_update(default, section_path_str, default)
 
     def refresh(self, section_path_str: str):
         config, updated, updates = self._config.refresh(section_path_str)
-- 
2.43.0


From 38e031df67fdc1a87bf4b11f4ed8454485eb2de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 07/47] fix: call pyfileconf_post_config_changed and refresh
 dependent configs also when the changed item is not loaded

---
 pyfileconf/config/models/manager.py | 4 ++++
 pyfileconf/runner/models/runner.py  | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index ef76327..811a642 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -79,6 +79,10 @@ class ConfigManager(ReprMixin):
     def refresh_dependent_configs(self, section_path_str: str):
         from pyfileconf import context
         full_sp = SectionPath.join(self.pipeline_manager_name, section_path_str)
+        is_loaded = self.pipeline_manager.runner.is_loaded(section_path_str)
+        if not is_loaded and full_sp.path_str not in context.force_update_dependencies:
+            # Nothing depends on this config
+            return
         update_deps = {*context.force_update_dependencies[full_sp.path_str]}
         all_updated_deps = set()
         while update_deps:
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index a571db7..7c7b2b5 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -380,6 +380,7 @@ class Runner(ReprMixin):
 
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], new_config)
+        if updated and section_path_str is not None:
             self._config.track_post_update(new_config, section_path_str, {**(d_ or {}), **kwargs})
 
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> None:
@@ -390,6 +391,7 @@ class Runner(ReprMixin):
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], default)
+        if updated and section_path_str is not None:
             self._config.track_post_update(default, section_path_str, default)
 
     def refresh(self, section_path_str: str):
@@ -398,8 +400,12 @@ class Runner(ReprMixin):
         if updated and section_path_str in self._loaded_objects:
             config = self._get_config(section_path_str)
             apply_config(self._loaded_objects[section_path_str], config)
+        if updated:
             self._config.track_post_update(config, section_path_str, updates)
 
+    def is_loaded(self, section_path_str: str) -> bool:
+        return section_path_str in self._loaded_objects
+
     def _is_specific_class(self, obj: Any) -> bool:
         return self._all_specific_classes and isinstance(obj, self._all_specific_classes)  # type: ignore
 
-- 
2.43.0


From 61a214b4b065add385cf9c359ee8eeb241e88704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 08/47] fix: use the execute_attr of the specific class dict an
 item is in, even if other dicts have the same class

---
 pyfileconf/runner/models/runner.py     | 4 ++--
 pyfileconf/selector/models/itemview.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 7c7b2b5..f18c430 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -40,7 +40,7 @@ class Runner(ReprMixin):
 
         self._full_getattr = ''
         self._all_specific_classes = tuple([registrar.klass for registrar in self._registrars])
-        self._specific_class_registrar_map = {registrar.klass: registrar for registrar in self._registrars}
+        self._registrar_by_name_map = {registrar.name: registrar for registrar in self._registrars}
         self._loaded_objects: Dict[str, Any] = {}
 
     def __getattr__(self, item):
@@ -208,7 +208,7 @@ class Runner(ReprMixin):
         with StackTracker(section_path_str, base_section_path_str=self._manager_name):
             klass, config_dict = self._get_class_and_config(section_path_str)
             obj = self._get_one_obj_with_config(section_path_str)
-            registrar = self._specific_class_registrar_map[klass]
+            registrar = self._registrar_by_name_map[SectionPath(section_path_str)[0]]
             execute_attr = registrar.execute_attr
             func = getattr(obj, execute_attr)
 
diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index a20596a..db180e2 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -118,7 +118,7 @@ class ItemView:
             # Got specific registrar class
             # Need to look up the execute attribute and apply section path str
             actual_item._section_path_str = self.section_path_str
-            collection = self._specific_class_collection_map[type(actual_item)]
+            collection = manager._registrar_dict[collection_name].collection
             execute_attr = collection.execute_attr
             func = getattr(actual_item, execute_attr)
         else:
-- 
2.43.0


From 7aa4ef6b9b1f92ec48274e2908eb5e526174e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 09/47] fix: allow a section to have the same name as the
 section which contains it

---
 pyfileconf/config/models/section.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index ac4d977..222c6be 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -22,11 +22,14 @@ class ConfigSection(Container, ReprMixin):
 
     def __getattr__(self, item):
 
+        if item in self.config_map:
+            return self.config_map[item]
+
         # Handle if trying to get this section's config
         if self.config is not None and item == self.config.name:
             return self.config
 
-        return self.config_map[item]
+        raise KeyError(item)
 
     def __dir__(self):
         return self.config_map.keys()
-- 
2.43.0


From 14a34ec2b9b7205d635487ec6b021fe4b864e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 10/47] fix: track dependency on an item which was already
 loaded when another item gets it while running

---
 pyfileconf/runner/models/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index f18c430..dd03aad 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -298,6 +298,7 @@ class Runner(ReprMixin):
 
     def _get_one_func_with_config(self, section_path_str: str) -> Callable:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         func, config_dict = self._get_func_and_config(section_path_str)
@@ -311,6 +312,7 @@ class Runner(ReprMixin):
 
     def _get_one_obj_with_config(self, section_path_str: str) -> Any:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         obj = self._get_func_or_collection(section_path_str)
-- 
2.43.0


From b0b942f724375ac881b42167f1848e53d0d66467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 11/47] fix: resetting a config drops its updates even if they
 currently match the file, so that they are not applied in later refreshes

---
 pyfileconf/config/models/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 811a642..c279f9b 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -197,8 +197,8 @@ class ConfigManager(ReprMixin):
 
         # Not a new config, need to actually determine whether would be updated
         would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, value)
-        if would_update:
-            self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
+        # Replace even if the values would not change, so that updates tracked by the current config are dropped
+        self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
         return value, would_update
 
     def _get_func_or_section_configs(self, section_path_str: str) -> Optional[ActiveFunctionConfig]:
-- 
2.43.0


From dcc3bc4ce061b7a340e6e38e97b53d768d55bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 12/47] fix: allow updating configs with values which cannot be
 compared to a single bool such as arrays

---
 pyfileconf/basemodels/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index d71b1e5..44e8c33 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -183,7 +183,7 @@ def _values_are_equal(val1: Any, val2: Any) -> bool:
         return False
 
     try:
-        return val1 == val2
+        return bool(val1 == val2)
     except Exception as e:
         warnings.warn(f'Could not check if values {val1} and {val2} of '
                       f'type {type(val1)} and {type(val2)} are '
-- 
2.43.0


From 264f181ef07d8368e2c1c77b7481e12033553aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 13/47] fix: include required keyword-only arguments in the
 config of functions

---
 pyfileconf/imports/logic/load/func.py | 6 +++---
 pyfileconf/io/func/load/config.py     | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/imports/logic/load/func.py b/pyfileconf/imports/logic/load/func.py
index 9b31e3b..7fc009b 100644
--- a/pyfileconf/imports/logic/load/func.py
+++ b/pyfileconf/imports/logic/load/func.py
@@ -21,9 +21,9 @@ def function_args_as_dict(func: Callable):
 
     # Handle kwargs
     for kwarg in args.kwonlyargs:
-        if args.kwonlydefaults:
-            default = args.kwonlydefaults[kwarg] if kwarg in args.kwonlydefaults else None
-            out_dict.update({kwarg: default})
+        kwonlydefaults = args.kwonlydefaults or {}
+        default = kwonlydefaults[kwarg] if kwarg in kwonlydefaults else None
+        out_dict.update({kwarg: default})
 
     return out_dict
 
diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index a6faea1..b9ef75d 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -39,6 +39,9 @@ def function_args_as_arg_and_annotation_dict(args: ast.arguments) -> Tuple[dict,
     # Handle kwargs
     for i, kwarg in enumerate(args.kwonlyargs):
         default = args.kw_defaults[i]
+        if default is None:
+            # Required keyword-only argument, has no default
+            default = ast.NameConstant(value=None)
         arg_dict[kwarg.arg] = default
         if kwarg.annotation is not None:
             annotation_dict[kwarg.arg] = _strip_ast_quotes_if_necessary(kwarg.annotation)
-- 
2.43.0


From b6ac07ab383c019503344d163fed8dfe8c69c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 14/47] fix: update every config of a case in run_product, even
 if it was changed outside of the cases or cannot be compared

---
 pyfileconf/plugin/default_hooks.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/plugin/default_hooks.py b/pyfileconf/plugin/default_hooks.py
index 100040d..d83e669 100644
--- a/pyfileconf/plugin/default_hooks.py
+++ b/pyfileconf/plugin/default_hooks.py
@@ -44,17 +44,14 @@ def pyfileconf_iter_update_for_case(
     """
     from pyfileconf.batch import BatchUpdater
 
-    updated_confs: Sequence[Dict[str, Any]]
-    if runner.last_case is not None:
-        updated_confs = [conf for conf in case if conf not in runner.last_case]
-    else:
-        updated_confs = case
-
+    # Pass all the confs and not only those which are different from the last case, as
+    # configs could have been changed by something else since the last case was run.
+    # Updates which would not change the config have no effect
     bu = BatchUpdater(
         base_section_path_str=runner.base_section_path_str,
         strip_manager_from_iv=runner.strip_manager_from_iv,
     )
-    bu.update(updated_confs)
+    bu.update(case)
 
 
 @hookimpl
-- 
2.43.0


From 4c57ed114a395643a5ac58db762290d0b641ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 15/47] fix: run_product does not freeze values which depend on
 other configs at their defaults

---
 pyfileconf/iterate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 2fcd6f4..f1505de 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -75,6 +75,12 @@ class IterativeRunner:
         section_path_strs = [
             self._get_full_section_path_str(conf['section_path_str']) for conf in case
         ]
+        # Only need defaults for what is changed by any of the cases. Applying the rest as updates
+        # would detach those values from other configs which they depend on
+        changed_keys: Dict[str, set] = defaultdict(set)
+        for case in self.cases:
+            for conf in case:
+                changed_keys[self._get_full_section_path_str(conf['section_path_str'])].update(conf)
         defaults: Dict[str, Dict[str, Any]] = {}
         for sp_str in section_path_strs:
             pm = PipelineManager.get_manager_by_section_path_str(sp_str)
@@ -82,7 +88,7 @@ class IterativeRunner:
             relative_section_path_str = SectionPath(".".join(sp[1:])).path_str
             config = pm.config.get(relative_section_path_str)
             if config is not None:
-                defaults[sp_str] = {**config}
+                defaults[sp_str] = {key: value for key, value in config.items() if key in changed_keys[sp_str]}
         logger.debug(f'Got {defaults} for IterativeRunner.defaults')
         return defaults
 
-- 
2.43.0


From 39b21be0b85822e64f970a95ae47af247835ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 16/47] fix: section configs apply when an item is loaded or
 reset and do not override later updates

---
 pyfileconf/basemodels/config.py     |  1 +
 pyfileconf/config/models/manager.py | 31 ++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 44e8c33..aad9314 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -46,6 +46,7 @@ class ConfigBase(dict):
         self.always_import_strs = always_import_strs
         self.always_assign_strs = always_assign_strs
         self._applied_updates: Dict[str, Any] = {}
+        self.section_configs_applied = False
 
     def __repr__(self):
         dict_repr = super().__repr__()
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index c279f9b..9cc7f0e 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -106,6 +106,9 @@ class ConfigManager(ReprMixin):
 
         """
         default = self._get_default_func_or_section_config(section_path_str, create=allow_create)
+        if section_path_str is not None and isinstance(default, ActiveFunctionConfig) and not allow_create:
+            # Match the config which is used when it is first loaded
+            self._apply_section_configs(default, section_path_str)
         new_config, updated = self.set(section_path_str, default, allow_create=allow_create)
         return new_config, updated
 
@@ -130,6 +133,19 @@ class ConfigManager(ReprMixin):
         if self.section is None:
             raise ConfigManagerNotLoadedException('call .load() on ConfigManager before .get()')
 
+        if config and not config.section_configs_applied:
+            self._apply_section_configs(config, section_path_str)
+
+        return config
+
+    def _apply_section_configs(self, config: ConfigBase, section_path_str: str) -> None:
+        """
+        Overrides the values of a config which was just loaded from its file with the values of section configs.
+
+        Must be called only once per config, otherwise it would override updates made to the config since then
+        """
+        assert self.section is not None  # should never fail this, for mypy
+
         # First override for function defaults is global project config
         section_configs = [self.section.config]
 
@@ -151,15 +167,14 @@ class ConfigManager(ReprMixin):
             # if is a section, not function/pipeline
             section_configs.append(self._get_func_or_section_configs(full_section))
 
-        if config:
-            # Override configs. Default config is base config, then gets updated by project, then high
-            # level sections to low level sections
-            [config.update(section_config) for section_config in section_configs]
+        # Override configs. Default config is base config, then gets updated by project, then high
+        # level sections to low level sections
+        [config.update(section_config) for section_config in section_configs]
 
-            # Last, override with local config
-            config.update(self.local_config)
+        # Last, override with local config
+        config.update(self.local_config)
 
-        return config
+        config.section_configs_applied = True
 
     def set(self, section_path_str: Optional[str] = None, value: Optional[ConfigBase] = None,
             allow_create: bool = True) -> Tuple[ConfigBase, bool]:
@@ -230,6 +245,8 @@ class ConfigManager(ReprMixin):
         # But if it is a section, then don't want to overwrite with config
         if not isinstance(config_or_section, ConfigSection):
             _set_in_nested_obj_by_section_path(self, section_path, conf)
+            if conf is not None and not conf.section_configs_applied:
+                self._apply_section_configs(conf, section_path_str)
 
         return conf
 
-- 
2.43.0


From 98fb8a8bf1cacae07f7e2e2a266687c782df9264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:08 +0000
Subject: [PATCH 17/47] fix: showing a config which has an item view does not
 load the item or track it as a dependency

---
 pyfileconf/selector/models/selector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index 8d7e3ed..0827938 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -189,5 +189,6 @@ class Selector:
 
 
 def _is_selector(obj) -> bool:
-    is_selector = getattr(obj, '_is_selector', False)
-    return is_selector
\ No newline at end of file
+    # Check the actual type, as getting an attribute of an ItemView would load the item
+    # and track it as a dependency
+    return issubclass(type(obj), Selector)
\ No newline at end of file
-- 
2.43.0


From 414e473eb309e4f9d90a94fcd2a33848ae2aa6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:45 +0000
Subject: [PATCH 18/47] fix: reload picks up edits of source modules which were
 imported after loading

---
 pyfileconf/main.py                        |  7 ++++++-
 pyfileconf/pipelines/models/collection.py | 11 +++++++++++
 pyfileconf/views/object.py                |  8 ++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 8f403fd..bedefa1 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -30,7 +30,7 @@ from pyfileconf.logic.combine import \
 from pyfileconf.pipelines.models.collection import PipelineCollection
 from pyfileconf.pipelines.models.dictconfig import PipelineDictConfig
 from pyfileconf.plugin import manager as plugin_manager
-from pyfileconf.views.object import ObjectView
+from pyfileconf.views.object import ObjectView, modules_imported_by_views
 
 if TYPE_CHECKING:
     from pyfileconf.runner.models.interfaces import RunnerArgs, StrOrView, IterativeResults, IterativeResult
@@ -573,6 +573,11 @@ class PipelineManager:
 
     def _wipe_loaded_modules(self):
         [sys.modules.pop(module) for module in self._loaded_modules]
+        if self._general_registrar is not None:
+            # The modules of the items are imported only when the items are first used, after loading
+            for view in self._general_registrar.collection._object_views:
+                if view.import_statement is not None and view.module in modules_imported_by_views:
+                    sys.modules.pop(view.module, None)
 
     def _convert_list_or_single_item_view_or_str_to_strs(self, run_list: 'RunnerArgs') -> Union[str, List[str]]:
         if isinstance(run_list, list):
diff --git a/pyfileconf/pipelines/models/collection.py b/pyfileconf/pipelines/models/collection.py
index 00e9815..39f2bdc 100644
--- a/pyfileconf/pipelines/models/collection.py
+++ b/pyfileconf/pipelines/models/collection.py
@@ -1,4 +1,5 @@
 import os
+from typing import List
 
 from pyfileconf.pipelines.models.config import FunctionConfig
 from pyfileconf.logic.get import _get_public_name_or_special_name
@@ -9,6 +10,16 @@ from pyfileconf.basemodels.collection import Collection
 
 class PipelineCollection(Collection):
 
+    @property
+    def _object_views(self) -> List[ObjectView]:
+        views = []
+        for item in self:
+            if isinstance(item, PipelineCollection):
+                views.extend(item._object_views)
+            else:
+                views.append(item)
+        return views
+
     def _set_name_map(self):
         pipeline_map = {}
         for pipeline_or_collection in self:
diff --git a/pyfileconf/views/object.py b/pyfileconf/views/object.py
index 2d1e1b7..f96740e 100644
--- a/pyfileconf/views/object.py
+++ b/pyfileconf/views/object.py
@@ -1,4 +1,6 @@
 import ast
+import sys
+from typing import Set
 
 from mixins.propertycache import SimplePropertyCacheMixin
 from pyfileconf.imports.models.statements.interfaces import (
@@ -12,6 +14,10 @@ from pyfileconf.io.file.load.parsers.kwargs import extract_keywords_from_ast_by_
 from pyfileconf.io.func.load.config import FunctionConfigExtractor
 from mixins.repr import ReprMixin
 
+# Names of the modules which were first imported by loading an object from the pipeline dict
+modules_imported_by_views: Set[str] = set()
+
+
 class ObjectView(SimplePropertyCacheMixin, ReprMixin):
     repr_cols = ['name', 'obj_ast', 'section_path_str']
 
@@ -24,6 +30,8 @@ class ObjectView(SimplePropertyCacheMixin, ReprMixin):
     def load(self):
         # executes import
         if self.import_statement is not None:
+            if self.module not in sys.modules:
+                modules_imported_by_views.add(self.module)
             self._item = _execute_import_get_obj_from_result(self.import_statement, self.name)
 
         return self._item
-- 
2.43.0


From 84eeba1e98a27e12f86ec74bdd3629bcec1692c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:39 +0000
Subject: [PATCH 19/47] fix: membership in a Selector is answered for paths
 outside all managers and SectionPath objects

---
 pyfileconf/selector/models/selector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index 0827938..ca9368c 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -22,6 +22,12 @@ class Selector:
             warnings.warn('check for if non-str object in Selector will always return False')
             return False
 
+        item = SectionPath.from_ambiguous(item).path_str
+
+        if SectionPath(item)[0] not in self._managers:
+            # Not in any manager
+            return False
+
         collection_obj, relative_section_path = self._get_collection_obj_and_relative_section_path_from_structure(item)
         if relative_section_path is None:
             # got only the root data path, e.g. project.sources. Return the collection object itself
-- 
2.43.0


From 89a4b7cd5eed1217cab29ae51d48643e958a88b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:40 +0000
Subject: [PATCH 20/47] fix: an option whose new value cannot take effect keeps
 its old value and log file handler

---
 pyfileconf/logger/logger.py | 11 +++++++++--
 pyfileconf/opts/__init__.py |  7 ++++++-
 pyfileconf/opts/filelog.py  |  6 ++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 6f88e43..9c3fb4c 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -2,6 +2,7 @@ import logging
 import os
 import sys
 from logging.handlers import TimedRotatingFileHandler
+from typing import Optional
 
 
 class CustomFormatter(logging.Formatter):
@@ -27,7 +28,7 @@ ch.setFormatter(CustomFormatter())
 logger.addHandler(ch)
 
 
-def add_file_handler():
+def create_file_handler() -> TimedRotatingFileHandler:
     from pyfileconf.opts import options
 
     if options.log_folder is None:
@@ -40,7 +41,13 @@ def add_file_handler():
     )
     fh.setLevel(logging.DEBUG)
     fh.setFormatter(CustomFormatter())
-    logger.addHandler(fh)
+    return fh
+
+
+def add_file_handler(file_handler: Optional[TimedRotatingFileHandler] = None):
+    if file_handler is None:
+        file_handler = create_file_handler()
+    logger.addHandler(file_handler)
 
 
 def has_file_handler() -> bool:
diff --git a/pyfileconf/opts/__init__.py b/pyfileconf/opts/__init__.py
index cc630e2..8095bd3 100644
--- a/pyfileconf/opts/__init__.py
+++ b/pyfileconf/opts/__init__.py
@@ -73,7 +73,12 @@ class PyfileconfOption:
         orig_value = getattr(options, self.name)
         setattr(options, self.name, val)
         if self.callback is not None and orig_value != val:
-            self.callback(self.name, val)
+            try:
+                self.callback(self.name, val)
+            except Exception:
+                # The option could not be set, so it must stay as it was
+                setattr(options, self.name, orig_value)
+                raise
 
     @property
     def default_value(self) -> Any:
diff --git a/pyfileconf/opts/filelog.py b/pyfileconf/opts/filelog.py
index 9ad9840..5aaccd9 100644
--- a/pyfileconf/opts/filelog.py
+++ b/pyfileconf/opts/filelog.py
@@ -1,13 +1,15 @@
 from typing import Optional
 
-from pyfileconf.logger.logger import add_file_handler, has_file_handler, remove_file_handler
+from pyfileconf.logger.logger import add_file_handler, create_file_handler, has_file_handler, remove_file_handler
 
 
 def add_file_handler_if_log_folder_exists_else_remove_handler(attr_name: str, log_folder: Optional[str]):
     if log_folder is not None:
+        # Create first, so that nothing has changed if the folder cannot be used
+        file_handler = create_file_handler()
         if has_file_handler():
             # Changing from one log folder to another, must not keep logging into the original one
             remove_file_handler()
-        add_file_handler()
+        add_file_handler(file_handler)
     else:
         remove_file_handler()
-- 
2.43.0


From 16c9f697fea03e9bb6c230c955a0341213bf8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 21/47] fix: getting a section does not replace the objects of
 the classes in it

---
 pyfileconf/runner/models/runner.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index dd03aad..18256ad 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -286,6 +286,10 @@ class Runner(ReprMixin):
                 )
             elif self._is_specific_class(section_or_callable):
                 results.append(self._get_one_obj_with_config(subsection_path_str))
+            elif inspect.isclass(section_or_callable):
+                # get class with its config. Is not the object of the item, so must not be stored as that
+                results.append(self._create_func_with_config(subsection_path_str))
+                self._add_to_config_dependencies_if_necessary(subsection_path_str)
             elif callable(section_or_callable):
                 # get function
                 results.append(self._get_one_func_with_config(subsection_path_str))
@@ -301,13 +305,17 @@ class Runner(ReprMixin):
             self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
+        full_func = self._create_func_with_config(section_path_str)
+        self._loaded_objects[section_path_str] = full_func
+        self._add_to_config_dependencies_if_necessary(section_path_str)
+        return full_func
+
+    def _create_func_with_config(self, section_path_str: str) -> Callable:
         func, config_dict = self._get_func_and_config(section_path_str)
 
         full_func = partial(func, **config_dict)
 
         self._add_full_section_path_str_to_obj(section_path_str, full_func)
-        self._loaded_objects[section_path_str] = full_func
-        self._add_to_config_dependencies_if_necessary(section_path_str)
         return full_func
 
     def _get_one_obj_with_config(self, section_path_str: str) -> Any:
-- 
2.43.0


From 276c2cb22c1ad46ade29dc6c242bf4158f6eb45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 22/47] fix: pre_run plugins may return lists and ItemViews or
 modify a passed list in place

---
 pyfileconf/main.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index bedefa1..63a9117 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -26,6 +26,7 @@ from pyfileconf.imports.models.statements.obj import ObjectImportStatement
 from pyfileconf.iterate import IterativeRunner
 from pyfileconf.logger.logger import logger
 from pyfileconf.logic.combine import \
+    combine_items_into_list_whether_they_are_lists_or_not, \
     combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item
 from pyfileconf.pipelines.models.collection import PipelineCollection
 from pyfileconf.pipelines.models.dictconfig import PipelineDictConfig
@@ -142,12 +143,19 @@ class PipelineManager:
         Returns: result or list of results
 
         """
+        additional_args: List['RunnerArgs'] = plugin_manager.plm.hook.pyfileconf_pre_run(
+            section_path_str_or_list=section_path_str_or_list, pm=self
+        )
+        # Convert after calling plugins, as they may modify a passed list in place
         str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
             section_path_str_or_list
         )
-        additional_items = plugin_manager.plm.hook.pyfileconf_pre_run(
-            section_path_str_or_list=section_path_str_or_list, pm=self
-        )
+        additional_items: List[str] = []
+        for additional_arg in additional_args:
+            # Each plugin may return a single section path or view, or a list thereof
+            additional_items = combine_items_into_list_whether_they_are_lists_or_not(
+                additional_items, self._convert_list_or_single_item_view_or_str_to_strs(additional_arg)
+            )
         list_passed = isinstance(str_or_list_only, list)
         # Will be converted into list always
         str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
-- 
2.43.0


From 745edca99ac03b1664012b1fdcef98fba14a86c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:18 +0000
Subject: [PATCH 23/47] fix: updates of items which a section config file reads
 no longer raise

---
 pyfileconf/config/models/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 9cc7f0e..78de9a1 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -388,6 +388,9 @@ def _refresh_configs(section_paths: Iterable[SectionPath]):
     from pyfileconf import PipelineManager
 
     for sp in section_paths:
+        if sp[-1] == 'section':
+            # A section config file. It has no config to refresh, it is used when items are loaded or reset
+            continue
         manager = PipelineManager.get_manager_by_section_path_str(sp.path_str)
         relative_section_path = SectionPath('.'.join(sp[1:]))
         manager.refresh(relative_section_path.path_str)
\ No newline at end of file
-- 
2.43.0


From a6ed30a18b948567fbf091930da7a7b34a4a90d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:06 +0000
Subject: [PATCH 24/47] fix: reload after another manager's reload wiped a
 module imported while loading

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 63a9117..2caab47 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -580,7 +580,7 @@ class PipelineManager:
         )
 
     def _wipe_loaded_modules(self):
-        [sys.modules.pop(module) for module in self._loaded_modules]
+        [sys.modules.pop(module, None) for module in self._loaded_modules]
         if self._general_registrar is not None:
             # The modules of the items are imported only when the items are first used, after loading
             for view in self._general_registrar.collection._object_views:
-- 
2.43.0


From 9ef3ecaa816f4d11665827ff3930fdb297bd94bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:37 +0000
Subject: [PATCH 25/47] fix: source and config files with chained, unpacking,
 and item assignments no longer break the load

---
 pyfileconf/assignments/models/statement.py | 21 +++++--------
 pyfileconf/io/file/load/parsers/assign.py  | 34 +++++++++++++---------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/pyfileconf/assignments/models/statement.py b/pyfileconf/assignments/models/statement.py
index b9da56b..7f28ecd 100644
--- a/pyfileconf/assignments/models/statement.py
+++ b/pyfileconf/assignments/models/statement.py
@@ -84,22 +84,15 @@ class AssignmentStatement(ReprMixin, OrderPreferenceMixin):
         )
 
     def to_default_dict_and_annotation_dict(self) -> Tuple[Dict[str, ast.AST], Dict[str, ast.Name]]:
+        if not isinstance(self.target, ast.Name):
+            # Attribute, item, or unpacking assignment like a.b = 6, a[b] = 6, or a, b = 6, 7. There is
+            # no single name and value to put into the default dict
+            return {}, {}
+
         # Set default dict
-        try:
+        default_dict: Dict[str, ast.AST] = {}
+        if self.value is not None:  # no value when there is only an annotation, e.g. a: int
             default_dict = {self.target.id: self.value}
-        except AttributeError as e:
-            if "no attribute 'id'" in str(e):
-                try:
-                    self.target.attr  # type: ignore
-                    # Success, means that this was an attribute assignment like a.b = 6, do not need to put
-                    # into default dict
-                    default_dict = {}
-                except AttributeError:
-                    raise NotImplementedError(
-                        f'do not understand how to parse {self.target} (dict: {self.target.__dict__})'
-                    )
-            else:
-                raise e
 
         # Set annotation dict
         annotation_dict = {}
diff --git a/pyfileconf/io/file/load/parsers/assign.py b/pyfileconf/io/file/load/parsers/assign.py
index 995d52c..e9955ad 100644
--- a/pyfileconf/io/file/load/parsers/assign.py
+++ b/pyfileconf/io/file/load/parsers/assign.py
@@ -14,15 +14,27 @@ class AssignmentExtractor(ast.NodeVisitor):
 
     def visit_Assign(self, node):
         from pyfileconf.assignments.models.statement import AssignmentStatement
-        self.assigns.append(
-            AssignmentStatement.from_ast_assign(node)
-        )
+        for target in node.targets:
+            # Multiple targets for e.g. this = that = 5, create an assignment for each
+            if self._should_extract(target):
+                self.assigns.append(AssignmentStatement(target, node.value))
 
     def visit_AnnAssign(self, node):
         from pyfileconf.assignments.models.statement import AssignmentStatement
-        self.assigns.append(
-            AssignmentStatement.from_ast_assign(node)
-        )
+        if self._should_extract(node.target):
+            self.assigns.append(
+                AssignmentStatement.from_ast_assign(node)
+            )
+
+    def visit_FunctionDef(self, node):
+        pass
+        # don't go into children, names assigned within are not names of the module
+
+    visit_AsyncFunctionDef = visit_FunctionDef
+    visit_ClassDef = visit_FunctionDef
+
+    def _should_extract(self, target: ast.AST) -> bool:
+        return True
 
 
 def extract_assignments_from_ast(module: ast.Module) -> 'AssignmentStatementContainer':
@@ -48,14 +60,8 @@ class AssignmentByVarnameExtractor(AssignmentExtractor):
         self.varname = varname
         super().__init__()
 
-    def visit_Assign(self, node):
-        varnames = [target.id for target in node.targets]
-        if self.varname in varnames:
-            super().visit_Assign(node)
-
-    def visit_AnnAssign(self, node):
-        if node.target.id == self.varname:
-            super().visit_AnnAssign(node)
+    def _should_extract(self, target: ast.AST) -> bool:
+        return isinstance(target, ast.Name) and target.id == self.varname
 
 
 def extract_assignments_from_ast_by_name(module: ast.Module, name: str) -> 'AssignmentStatementContainer':
-- 
2.43.0


From 0e0d1b727bd7f70b375e41422737c5815a79d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:55 +0000
Subject: [PATCH 26/47] fix: defaults and annotations which name any definition
 of the source module or a builtin get their imports and do not break the load

---
 .../io/file/load/lazy/base/impassign.py       | 11 ++-
 pyfileconf/io/file/load/parsers/names.py      | 68 +++++++++++++++++++
 pyfileconf/io/func/load/args.py               |  3 +-
 pyfileconf/io/func/load/extractimp.py         | 36 ++++++----
 4 files changed, 103 insertions(+), 15 deletions(-)
 create mode 100644 pyfileconf/io/file/load/parsers/names.py

diff --git a/pyfileconf/io/file/load/lazy/base/impassign.py b/pyfileconf/io/file/load/lazy/base/impassign.py
index 535dc7d..c326867 100644
--- a/pyfileconf/io/file/load/lazy/base/impassign.py
+++ b/pyfileconf/io/file/load/lazy/base/impassign.py
@@ -1,6 +1,9 @@
+from typing import Set
+
 from pyfileconf.io.file.load.lazy.base.loader import LazyLoader
 from pyfileconf.io.file.load.parsers.imp import extract_imports_from_ast
 from pyfileconf.io.file.load.parsers.assign import extract_assignments_from_ast
+from pyfileconf.io.file.load.parsers.names import extract_bound_names_from_ast
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 
@@ -26,4 +29,10 @@ class ImportAssignmentLazyLoader(LazyLoader):
 
     @property
     def assigns(self) -> AssignmentStatementContainer:
-        return self._try_getattr_else_register('_assigns')
\ No newline at end of file
+        return self._try_getattr_else_register('_assigns')
+
+    @property
+    def bound_names(self) -> Set[str]:
+        if self.ast is None:
+            return set()
+        return extract_bound_names_from_ast(self.ast)
diff --git a/pyfileconf/io/file/load/parsers/names.py b/pyfileconf/io/file/load/parsers/names.py
new file mode 100644
index 0000000..d76fb4f
--- /dev/null
+++ b/pyfileconf/io/file/load/parsers/names.py
@@ -0,0 +1,68 @@
+import ast
+from typing import Set
+
+
+class BoundNameExtractor(ast.NodeVisitor):
+    """
+    Collects the names which get bound in the namespace of a module, by any kind of statement
+    """
+
+    def __init__(self):
+        self.names: Set[str] = set()
+
+    def visit_Name(self, node):
+        if isinstance(node.ctx, ast.Store):
+            self.names.add(node.id)
+        elif isinstance(node.ctx, ast.Del):
+            self.names.discard(node.id)
+
+    def visit_AnnAssign(self, node):
+        if node.value is not None:  # annotation only, e.g. a: int, does not bind the name
+            self.generic_visit(node)
+
+    def visit_FunctionDef(self, node):
+        self.names.add(node.name)
+        # don't go into children, names bound within are not names of the module
+
+    visit_AsyncFunctionDef = visit_FunctionDef
+    visit_ClassDef = visit_FunctionDef
+
+    def visit_Lambda(self, node):
+        pass
+
+    def visit_ListComp(self, node):
+        # The loop variables are only names of the comprehension, but walrus assignments are names of the module
+        self.names.update(
+            child.target.id for child in ast.walk(node) if type(child).__name__ == 'NamedExpr'
+        )
+
+    visit_SetComp = visit_ListComp
+    visit_DictComp = visit_ListComp
+    visit_GeneratorExp = visit_ListComp
+
+    def visit_Import(self, node):
+        for alias in node.names:
+            # import a.b binds a
+            self.names.add(alias.asname or alias.name.split('.')[0])
+
+    def visit_ImportFrom(self, node):
+        for alias in node.names:
+            self.names.add(alias.asname or alias.name)
+
+    def visit_MatchAs(self, node):
+        if node.name is not None:
+            self.names.add(node.name)
+        self.generic_visit(node)
+
+    visit_MatchStar = visit_MatchAs
+
+    def visit_MatchMapping(self, node):
+        if node.rest is not None:
+            self.names.add(node.rest)
+        self.generic_visit(node)
+
+
+def extract_bound_names_from_ast(module: ast.Module) -> Set[str]:
+    be = BoundNameExtractor()
+    be.visit(module)
+    return be.names
diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index 2c2ef51..049fd45 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -73,7 +73,8 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
             ast_function_def.args,
             loader.imports,
             loader.assigns,
-            imp.module
+            imp.module,
+            loader.bound_names
         )
         return ast_function_def.args, function_arg_imports
 
diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 2ebbcb3..f245979 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -1,17 +1,20 @@
-from typing import List, cast
+from typing import List, Set
 import ast
+import builtins
 import warnings
 
 from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict
 from pyfileconf.io.file.load.parsers.extname import extract_unique_external_names_from_assign_value
 from pyfileconf.imports.models.statements.container import ImportStatementContainer, ObjectImportStatement
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.logic.inspect import _is_str_matching_builtin_type
 
 def extract_import_statements_from_function_args_imports_and_assigns(args: ast.arguments,
                                                                      imports: ImportStatementContainer,
                                                                      assigns: AssignmentStatementContainer,
                                                                      current_module_section_path_str: str,
+                                                                     bound_names: Set[str],
                                                                      ) -> ImportStatementContainer:
     defaults_dict, annotation_dict = function_args_as_arg_and_annotation_dict(args)
 
@@ -20,25 +23,32 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
 
     out_imports = ImportStatementContainer([])
 
-    # External names may be either due to assignment or due to imports
-    # Handle names due to assignment
+    # External names may be either due to imports or due to other definitions in this module
+    # such as assignments, functions, and classes
+    missing_names = []
     for name in external_names:
         if assigns.contains_varname(name):
             # External name is due to assignment in this module. Create import from this module
             out_imports.append(ObjectImportStatement.from_str(f'from {current_module_section_path_str} import {name}'))
+            continue
 
-    # Handle names which are imported into this file
-    for name in external_names:
-        import_or_none = imports.get_import_for_module_or_obj_name(name)
-        if import_or_none is not None:
-            out_imports.append(import_or_none)
+        # Handle names which are imported into this file
+        try:
+            out_imports.append(imports.get_import_for_module_or_obj_name(name))
+            continue
+        except NoImportMatchingNameException:
+            pass
+
+        if name in bound_names:
+            # Some other definition in this module. Create import from this module
+            out_imports.append(ObjectImportStatement.from_str(f'from {current_module_section_path_str} import {name}'))
+        elif not hasattr(builtins, name):
+            missing_names.append(name)
 
     # Sanity check, did we find all the imports?
-    n_external = len(external_names)
-    n_imports = len(out_imports)
-    if n_external != n_imports:
-        warnings.warn(f'had {n_external} external names from function definition, only '
-                      f'found {n_imports} imports. May be missing imports')
+    if missing_names:
+        warnings.warn(f'could not find imports for external names {missing_names} from function definition. '
+                      f'May be missing imports')
 
     return out_imports
 
-- 
2.43.0


From cf9d6e84e4c8cadb2cdff9f0af0d1794676b99d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:39 +0000
Subject: [PATCH 27/47] fix: imports for any kind of annotation, including
 quoted ones

---
 pyfileconf/io/func/load/config.py     | 12 +++--
 pyfileconf/io/func/load/extractimp.py | 66 +++++++++------------------
 2 files changed, 29 insertions(+), 49 deletions(-)

diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index b9ef75d..07dfd49 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -34,7 +34,7 @@ def function_args_as_arg_and_annotation_dict(args: ast.arguments) -> Tuple[dict,
         default = all_defaults[i]
         arg_dict[arg.arg] = default
         if arg.annotation is not None:
-            annotation_dict[arg.arg] = _strip_ast_quotes_if_necessary(arg.annotation)
+            annotation_dict[arg.arg] = unquote_annotation(arg.annotation)
 
     # Handle kwargs
     for i, kwarg in enumerate(args.kwonlyargs):
@@ -44,7 +44,7 @@ def function_args_as_arg_and_annotation_dict(args: ast.arguments) -> Tuple[dict,
             default = ast.NameConstant(value=None)
         arg_dict[kwarg.arg] = default
         if kwarg.annotation is not None:
-            annotation_dict[kwarg.arg] = _strip_ast_quotes_if_necessary(kwarg.annotation)
+            annotation_dict[kwarg.arg] = unquote_annotation(kwarg.annotation)
 
     return arg_dict, annotation_dict
 
@@ -63,9 +63,11 @@ def _get_list_of_arg_section(section):
     return list(section)
 
 
-def _strip_ast_quotes_if_necessary(node: ast.AST) -> ast.AST:
+def unquote_annotation(node: ast.AST) -> ast.AST:
     if isinstance(node, ast.Str):
         # Got a quoted annotation such as 'DataPipeline'. Strip the quotes
-        str_value = node.s
-        return ast.Name(str_value)
+        try:
+            return ast.parse(node.s.strip(), mode='eval').body
+        except SyntaxError:
+            return node  # not a type, leave as is
     return node
diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index f245979..75ede79 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -3,8 +3,8 @@ import ast
 import builtins
 import warnings
 
-from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict
-from pyfileconf.io.file.load.parsers.extname import extract_unique_external_names_from_assign_value
+from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict, unquote_annotation
+from pyfileconf.io.file.load.parsers.extname import NameExtractor, extract_unique_external_names_from_assign_value
 from pyfileconf.imports.models.statements.container import ImportStatementContainer, ObjectImportStatement
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
 from pyfileconf.exceptions.imports import NoImportMatchingNameException
@@ -84,50 +84,28 @@ def _extract_unique_type_str_names_from_annotation_dict(annotation_dict: dict) -
 
     return list(set(names))
 
-def _extract_str_names_from_ambiguous_annotation(annotation) -> List[str]:
-    # TODO [#26]: remove type ignores once typeshed has better ast support
-    #
-    # Hitting errors "expr" has no attribute "id" and  "slice" has no attribute "value"
+def _extract_str_names_from_ambiguous_annotation(annotation: ast.AST) -> List[str]:
+    ane = AnnotationNameExtractor()
+    ane.visit(annotation)
+    return ane.names
 
-    names = []
-    if isinstance(annotation, ast.Name):
-        names.append(annotation.id)  # handles most types
-    elif hasattr(annotation, 'elts'):  # type: ignore
-        # got multiple values, e.g. List[str, bool]
-        # in this case, value.slice.value is a Tuple, and Tuple.elts contains the items
-        names.extend(_extract_str_names_from_tuple(annotation)) # type: ignore
-    elif isinstance(annotation, ast.Index):
-        # e.g. [str]
-        # use .value to extract the str part, but then as it can be anything, call recursively on this
-        names.extend(_extract_str_names_from_ambiguous_annotation(annotation.value))
-    elif isinstance(annotation, ast.Subscript):
-        # E.g. Tuple[int]
-        names.extend(_extract_str_names_from_subscript(annotation))
-    elif isinstance(annotation, ast.Attribute):
-        # E.g. pd.DataFrame
-        names.append(annotation.value.id)  # type: ignore
-    elif isinstance(annotation, ast.Str):
-        # E.g. 'DataPipeline' (quoted type declaration where type was imported if TYPE_CHECKING)
-        names.append(annotation.s)
-    else:
-        raise NotImplementedError(f'no handling for {annotation} of type {type(annotation)}')
-
-    return names
-
-def _extract_str_names_from_subscript(subscript: ast.Subscript) -> List[str]:
-    names = []
 
-    # for example, List[str]
-    outer_ast = subscript.value  # List portion
-    inner_ast = subscript.slice  # [str] portion
+class AnnotationNameExtractor(NameExtractor):
+    """
+    Gets the root names in an annotation, including within quoted parts such as 'DataPipeline' or List['DataPipeline']
+    (types may be imported if TYPE_CHECKING)
+    """
 
-    names.extend(_extract_str_names_from_ambiguous_annotation(outer_ast))
-    names.extend(_extract_str_names_from_ambiguous_annotation(inner_ast))
+    def visit_Constant(self, node):
+        unquoted = unquote_annotation(node)
+        if unquoted is not node:
+            self.visit(unquoted)
 
-    return names
+    visit_Str = visit_Constant
 
-def _extract_str_names_from_tuple(tuple: ast.Tuple) -> List[str]:
-    names = []
-    for item in tuple.elts:
-        names.extend(_extract_str_names_from_ambiguous_annotation(item))
-    return names
\ No newline at end of file
+    def visit_Subscript(self, node):
+        self.visit(node.value)
+        # The strings in Literal['a', 'b'] are values and not quoted annotations
+        outer_name = getattr(node.value, 'id', getattr(node.value, 'attr', None))
+        if outer_name != 'Literal':
+            self.visit(node.slice)
-- 
2.43.0


From 7b6b0e6a1b5e14d5a0c33e62668bc3a385f60777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:14 +0000
Subject: [PATCH 28/47] fix: source modules with relative imports no longer
 break the load or produce wrong imports

---
 pyfileconf/imports/models/statements/obj.py | 31 ++++++++++++++++-----
 pyfileconf/io/func/load/args.py             | 23 +++++++++------
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/pyfileconf/imports/models/statements/obj.py b/pyfileconf/imports/models/statements/obj.py
index aaf1846..cd999ac 100644
--- a/pyfileconf/imports/models/statements/obj.py
+++ b/pyfileconf/imports/models/statements/obj.py
@@ -1,6 +1,7 @@
 from typing import List
 import ast
 import importlib
+from importlib.util import resolve_name
 
 from mixins.repr import ReprMixin
 
@@ -17,7 +18,7 @@ class ObjectImportStatement(ImportStatement, ReprMixin):
     equal_attrs = ['module', 'objs', 'renames', 'comment']
 
     def __init__(self, objs: List[str], module: str, renames: RenameStatementCollection = None, comment: Comment=None,
-                 preferred_position: str = None):
+                 preferred_position: str = None, level: int = 0):
 
         if renames is None:
             renames = RenameStatementCollection([])
@@ -27,11 +28,12 @@ class ObjectImportStatement(ImportStatement, ReprMixin):
         self.renames = renames
         self.comment = comment
         self.preferred_position = preferred_position  # sets self.prefer_beginning as bool
+        self.level = level  # number of dots in a relative import
 
     def __str__(self):
         objs = self._renamed
         objs_str = ', '.join(objs)
-        import_str = f'from {self.module} import {objs_str}'
+        import_str = f'from {"." * self.level}{self.module} import {objs_str}'
         if self.comment is not None:
             import_str += f' {self.comment}'
 
@@ -59,14 +61,29 @@ class ObjectImportStatement(ImportStatement, ReprMixin):
         # Collect object names
         objs = [alias.name for alias in ast_import.names]
 
-        if ast_import.module is None:
-            raise CouldNotExtractObjectImportFromAstException(f'original ast: {ast_import}')
-
         return cls(
             objs,
-            ast_import.module,
+            ast_import.module or '',  # no module for from . import that
             renames,
-            preferred_position=preferred_position
+            preferred_position=preferred_position,
+            level=ast_import.level or 0
+        )
+
+    def as_absolute(self, package: str) -> 'ObjectImportStatement':
+        """
+        Resolves relative import, such as from .this import that
+
+        :param package: name of the package which contains the module which has this import
+        """
+        if self.level == 0:
+            return self
+
+        return self.__class__(
+            self.objs,
+            resolve_name('.' * self.level + self.module, package),
+            self.renames,
+            comment=self.comment,
+            preferred_position=self.preferred_position
         )
 
     def get_module_filepath(self, import_section_path_str: str=None) -> str:
diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index 049fd45..7ca8e6d 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -1,4 +1,5 @@
 import ast
+import os
 from typing import TYPE_CHECKING, Tuple, Optional, cast
 
 from pyfileconf.exceptions.imports import NoImportStatementException
@@ -51,12 +52,7 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
 
     loader = ImportAssignmentLazyLoader(filepath)
 
-    # TODO [#44]: handle relative nested imports such as from .this import that
-    #
-    # This code keeps importing and checking whether the name is defined in the file. If not,
-    # it follows the next import. This doesn't properly work if one of those followed imports
-    # is a relative import such as `from .this import that`. Add test to show this and
-    # also fix it.
+    loader_imports = _get_absolute_imports(loader.imports, imp.module, filepath)
 
     ast_function_def = extract_function_definition_or_class_init_from_ast_by_name(
         loader.ast,
@@ -71,7 +67,7 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
             del ast_function_def.args.args[0]  # delete first arg (self)
         function_arg_imports = extract_import_statements_from_function_args_imports_and_assigns(
             ast_function_def.args,
-            loader.imports,
+            loader_imports,
             loader.assigns,
             imp.module,
             loader.bound_names
@@ -80,7 +76,7 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
 
     # Else, this function must have been imported into this file as well.
     # Must find the matching import, the extract args from that import
-    next_level_import = loader.imports.get_import_for_module_or_obj_name(function_name)
+    next_level_import = loader_imports.get_import_for_module_or_obj_name(function_name)
     if next_level_import is None:
         raise ValueError(f'not able to find function definition for {function_name}. Could not '
                          f'find in definitions or in imports')
@@ -98,6 +94,17 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
     )
 
 
+def _get_absolute_imports(imports: ImportStatementContainer, module: str, filepath: str) -> ImportStatementContainer:
+    """
+    Resolves any relative imports such as from .this import that in the passed module
+    """
+    is_package = os.path.basename(filepath) == '__init__.py'
+    package = module if is_package else module.rpartition('.')[0]
+    return ImportStatementContainer([
+        imp.as_absolute(package) if package and isinstance(imp, ObjectImportStatement) else imp for imp in imports
+    ])
+
+
 def get_module_filepath_from_import(imp: Optional[AnyImportStatement], import_section_path_str: Optional[str]):
     if imp is None:
         return None
-- 
2.43.0


From 022186926f4c290a9ceeeacb138811291a80a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:29 +0000
Subject: [PATCH 29/47] fix: loading does not add assignments for names which
 the config file already binds, and adds those it does not bind

---
 pyfileconf/io/file/interfaces/config.py |  3 ++-
 pyfileconf/io/file/write/base.py        | 12 +++++++++---
 pyfileconf/io/file/write/config.py      | 10 ++++++----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index a8a5200..b0fd8f7 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -12,7 +12,8 @@ class ConfigFileInterface(ConfigFileLoader):
             config,
             existing_assigns=self.assigns,
             existing_imports=self.imports,
-            existing_body=self.assignment_body
+            existing_body=self.assignment_body,
+            existing_names=self.bound_names
         )
 
         with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
diff --git a/pyfileconf/io/file/write/base.py b/pyfileconf/io/file/write/base.py
index a94eddc..f246046 100644
--- a/pyfileconf/io/file/write/base.py
+++ b/pyfileconf/io/file/write/base.py
@@ -1,4 +1,4 @@
-from typing import Tuple, List
+from typing import Tuple, List, Optional, Set
 
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
@@ -8,7 +8,8 @@ ImportsDoubleAssignsTuple = Tuple[ImportStatementContainer, AssignmentStatementC
 class FileStr:
 
     def __init__(self, import_assignment_obj, existing_imports: ImportStatementContainer,
-                 existing_assigns: AssignmentStatementContainer, existing_body: List[str]):
+                 existing_assigns: AssignmentStatementContainer, existing_body: List[str],
+                 existing_names: Optional[Set[str]] = None):
         """
 
         Args:
@@ -16,7 +17,12 @@ class FileStr:
             existing_imports:
             existing_assigns:
             existing_body: should not contain imports, but should contain rest of existing file as str
+            existing_names: names which have a value in the existing file. Defaults to the names
+                in existing_assigns
         """
+        if existing_names is None:
+            existing_names = {assign.varname for assign in existing_assigns}
+        self.existing_names = existing_names
         self.file_str = self._create_str(
             import_assignment_obj=import_assignment_obj,
             existing_imports=existing_imports,
@@ -67,7 +73,7 @@ class FileStr:
         [all_imports.add_if_missing(imp) for imp in possibly_new_imports]
 
         for assign in possibly_new_assigns:
-            if not existing_assigns.contains_varname(assign.varname):
+            if assign.varname not in self.existing_names:
                 begin = getattr(assign, 'prefer_beginning', False)
                 if begin:
                     new_assigns_begin.append_if_missing(assign)
diff --git a/pyfileconf/io/file/write/config.py b/pyfileconf/io/file/write/config.py
index 4859e1d..6be84a1 100644
--- a/pyfileconf/io/file/write/config.py
+++ b/pyfileconf/io/file/write/config.py
@@ -1,4 +1,4 @@
-from typing import List, TYPE_CHECKING
+from typing import List, Optional, Set, TYPE_CHECKING
 if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 
@@ -10,10 +10,12 @@ from pyfileconf.assignments.models.container import AssignmentStatementContainer
 class ConfigFileStr(FileStr):
 
     def __init__(self, config: 'ConfigBase', existing_imports: ImportStatementContainer,
-                 existing_assigns: AssignmentStatementContainer, existing_body: List[str]):
+                 existing_assigns: AssignmentStatementContainer, existing_body: List[str],
+                 existing_names: Optional[Set[str]] = None):
         super().__init__(
             config,
             existing_imports=existing_imports,
             existing_assigns=existing_assigns,
-            existing_body=existing_body
-        )
\ No newline at end of file
+            existing_body=existing_body,
+            existing_names=existing_names
+        )
-- 
2.43.0


From 4fef76e8d6b5003bff9f35fa2c977951475c227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:11 +0000
Subject: [PATCH 30/47] fix: a renamed import does not count as an import of
 the original name

---
 pyfileconf/imports/models/statements/container.py  | 10 +++-------
 pyfileconf/imports/models/statements/importbase.py | 12 +++++++++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index df82740..f2f87b7 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -37,18 +37,14 @@ class ImportStatementContainer(Container, ReprMixin):
             # e.g. item is: import this
             # and import statement in collection is: import this, that
             if isinstance(item, ModuleImportStatement) and isinstance(imp_or_comment, ModuleImportStatement):
-                matching_modules = all(mod in imp_or_comment.modules for mod in item.modules)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_modules and matching_renames:
+                if item.items_and_bound_names <= imp_or_comment.items_and_bound_names:
                     return True
 
             # e.g. item is: from this import that
             # and import statement in collection is: from this import that, another
             if isinstance(item, ObjectImportStatement) and isinstance(imp_or_comment, ObjectImportStatement):
-                matching_module = imp_or_comment.module == item.module
-                matching_objs = all(mod in imp_or_comment.objs for mod in item.objs)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_module and matching_objs and matching_renames:
+                matching_module = (imp_or_comment.module, imp_or_comment.level) == (item.module, item.level)
+                if matching_module and item.items_and_bound_names <= imp_or_comment.items_and_bound_names:
                     return True
 
 
diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index 8a7144c..d18489a 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -1,4 +1,4 @@
-from typing import List, Optional
+from typing import List, Optional, Set, Tuple
 from mixins.attrequals import EqOnAttrsMixin
 from pyfileconf.mixins.orderpref import OrderPreferenceMixin
 
@@ -30,3 +30,13 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
                 renamed_items.append(item)
 
         return renamed_items
+
+    @property
+    def items_and_bound_names(self) -> Set[Tuple[str, str]]:
+        """
+        The imported items and the names by which they are available after the import
+        """
+        items: List[str] = getattr(self, self.rename_attr)  # type: ignore
+        new_names = self.renames.name_map if self.renames is not None else {}
+        # import a.b makes only a available
+        return {(item, new_names.get(item, item.split('.')[0])) for item in items}
-- 
2.43.0


From 69ba4378b1672716c829f5c75c59ad16d69b75b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:48 +0000
Subject: [PATCH 31/47] fix: loading keeps multi-line imports, comments,
 docstrings, and statements mentioning import at the top of config files

---
 pyfileconf/config/logic/load.py         | 104 ++++++++++++------------
 pyfileconf/io/file/interfaces/config.py |   3 +-
 pyfileconf/io/file/load/lazy/config.py  |  14 ++--
 pyfileconf/io/file/write/base.py        |   5 +-
 pyfileconf/io/file/write/config.py      |  21 ++++-
 5 files changed, 82 insertions(+), 65 deletions(-)

diff --git a/pyfileconf/config/logic/load.py b/pyfileconf/config/logic/load.py
index 1e025df..9e80440 100644
--- a/pyfileconf/config/logic/load.py
+++ b/pyfileconf/config/logic/load.py
@@ -1,5 +1,5 @@
-from typing import Tuple, List, Union, Sequence
-from copy import deepcopy
+import ast
+from typing import Callable, Tuple, List, Union, Sequence
 
 ListOfStrs = List[str]
 TwoNoneTuple = Tuple[None, None]
@@ -7,41 +7,57 @@ TwoStrTuple = Tuple[str, str]
 TwoTupleNoneOrStr = Union[TwoStrTuple, TwoNoneTuple]
 
 def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True) -> Tuple[ListOfStrs, ListOfStrs]:
-    # TODO [#2]: deal with later imports
-    #
-    # Imports can currently only be read from the top of the file
-
-    # TODO [#3]: deal with use of import other than the word import
-
-    import_section = []
-    assignment_section = []
-    # We can have three cases for the following two booleans:
-    # The file starts in the import section
-    # Then, we enter the whitespace section between import and assignments. Still consider this the import section.
-    # Finally, once text is detected again after import section,
-    # assignment section starts (in_import_section=False)
-    in_import_section = True
-    for i, line in enumerate(lines):
-
-        if strip_lines:
-            line = line.strip('\n')
-
-        # Handle import section and add whitespace below import section
-        if in_import_section:
-            if 'import' in line or _is_whitespace_line(line):
-                import_section.append(line)
-            else:
-                in_import_section = False  # no longer dealing with imports, must have assignment line
-
-        # Assignment section, just output
-        if not in_import_section:
-            assignment_section.append(line)
-
-    # Import section was handled as both import section and following whitespace. Strip following whitespace.
-    import_section = _strip_whitespace_lines_from_end_of_lines(import_section)
+    """
+    Splits into the import section at the top of the file: any docstring and import statements, with the
+    comments and whitespace in between, and the rest of the file, without any whitespace which comes first
+    """
+    num_import_lines = _num_lines_through_leading_statements(
+        lines, lambda i, node: _is_docstring(i, node) or isinstance(node, (ast.Import, ast.ImportFrom))
+    )
+    if strip_lines:
+        lines = [line.strip('\n') for line in lines]
+
+    import_section, assignment_section = lines[:num_import_lines], lines[num_import_lines:]
+    while assignment_section and _is_whitespace_line(assignment_section[0]):
+        assignment_section = assignment_section[1:]
 
     return import_section, assignment_section
 
+def _split_import_lines_where_imports_can_be_inserted(lines: ListOfStrs) -> Tuple[ListOfStrs, ListOfStrs]:
+    """
+    Imports can only be inserted after any docstring and from __future__ imports
+    """
+    num_first_lines = _num_lines_through_leading_statements(
+        [line + '\n' for line in lines],
+        lambda i, node: _is_docstring(i, node) or getattr(node, 'module', None) == '__future__'
+    )
+    return lines[:num_first_lines], lines[num_first_lines:]
+
+def _num_lines_through_leading_statements(lines: ListOfStrs, is_leading: Callable[[int, ast.AST], bool]) -> int:
+    """
+    Number of lines from the top which contain only statements for which is_leading is True
+    """
+    statements = ast.parse(''.join(lines)).body
+    num_lines = 0
+    for i, node in enumerate(statements):
+        if not is_leading(i, node):
+            break
+        # The statement may have multiple lines, it goes up to the first line with which
+        # the lines can be parsed to this many statements
+        is_last = i + 1 == len(statements)
+        last_possible_line = len(lines) if is_last else statements[i + 1].lineno - 1
+        for line_num in range(node.lineno, last_possible_line + 1):
+            try:
+                if len(ast.parse(''.join(lines[:line_num])).body) == i + 1:
+                    num_lines = line_num
+                    break
+            except SyntaxError:
+                continue
+    return num_lines
+
+def _is_docstring(i: int, node: ast.AST) -> bool:
+    return i == 0 and isinstance(node, ast.Expr) and isinstance(node.value, ast.Str)
+
 def _split_assignment_line_into_variable_name_and_assignment(line: str) -> TwoTupleNoneOrStr:
 
     # handle whitespace lines
@@ -62,23 +78,3 @@ def _split_assignment_line_into_variable_name_and_assignment(line: str) -> TwoTu
 
 def _is_whitespace_line(line: str) -> bool:
     return line.strip() == ''
-
-def _strip_whitespace_lines_from_end_of_lines(lines: List[str]) -> List[str]:
-
-    # Handle empty list
-    if lines == []:
-        return []
-
-    reversed_lines = deepcopy(lines)
-    reversed_lines.reverse()
-
-    # starting from end first. Discard all lines until non-whitespace is found
-    for line_index, line in enumerate(reversed_lines):
-        if not _is_whitespace_line(line):
-            break
-
-    output_lines = reversed_lines[line_index:]
-    output_lines.reverse() # back to first first
-
-    return output_lines
-
diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index b0fd8f7..1659ebf 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -13,7 +13,8 @@ class ConfigFileInterface(ConfigFileLoader):
             existing_assigns=self.assigns,
             existing_imports=self.imports,
             existing_body=self.assignment_body,
-            existing_names=self.bound_names
+            existing_names=self.bound_names,
+            existing_import_lines=self.import_body
         )
 
         with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
diff --git a/pyfileconf/io/file/load/lazy/config.py b/pyfileconf/io/file/load/lazy/config.py
index ec486f6..74a5c87 100644
--- a/pyfileconf/io/file/load/lazy/config.py
+++ b/pyfileconf/io/file/load/lazy/config.py
@@ -25,16 +25,14 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
     def assignment_body(self) -> List[str]:
         return self._try_getattr_else_call_func('_assignment_body', self.load)
 
-    def _file_body_to_assignment_body(self):
-        """
-        Warning: Assumes that imports come first, then an assignment section. May have
-        issues when imports come later
-        Returns:
+    @property
+    def import_body(self) -> List[str]:
+        return self._try_getattr_else_call_func('_import_body', self.load)
 
-        """
+    def _file_body_to_assignment_body(self):
         if self.body is not None:
-            import_lines, assignment_lines = _split_lines_into_import_and_assignment(self.body)
-            self._assignment_body = assignment_lines
+            self._import_body, self._assignment_body = _split_lines_into_import_and_assignment(self.body)
         else:
+            self._import_body = []
             self._assignment_body = []
 
diff --git a/pyfileconf/io/file/write/base.py b/pyfileconf/io/file/write/base.py
index f246046..d938246 100644
--- a/pyfileconf/io/file/write/base.py
+++ b/pyfileconf/io/file/write/base.py
@@ -52,7 +52,7 @@ class FileStr:
 
         # Now convert to str
         items = [
-            str(all_imports) + '\n',
+            self._imports_str(all_imports, existing_imports) + '\n',
             str(new_assigns_begin),
             '\n'.join(existing_body),
             str(new_assigns_end)
@@ -60,6 +60,9 @@ class FileStr:
         valid_items = [item for item in items if item not in ('', None)]
         return '\n'.join(valid_items)
 
+    def _imports_str(self, all_imports: ImportStatementContainer, existing_imports: ImportStatementContainer) -> str:
+        return str(all_imports)
+
     def _combine_imports_get_new_assignments(self, import_assignment_obj,
                                         existing_imports: ImportStatementContainer,
                                         existing_assigns: AssignmentStatementContainer) -> ImportsDoubleAssignsTuple:
diff --git a/pyfileconf/io/file/write/config.py b/pyfileconf/io/file/write/config.py
index 6be84a1..8d5b9ad 100644
--- a/pyfileconf/io/file/write/config.py
+++ b/pyfileconf/io/file/write/config.py
@@ -2,6 +2,7 @@ from typing import List, Optional, Set, TYPE_CHECKING
 if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 
+from pyfileconf.config.logic.load import _split_import_lines_where_imports_can_be_inserted
 from pyfileconf.io.file.write.base import FileStr
 
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
@@ -11,7 +12,8 @@ class ConfigFileStr(FileStr):
 
     def __init__(self, config: 'ConfigBase', existing_imports: ImportStatementContainer,
                  existing_assigns: AssignmentStatementContainer, existing_body: List[str],
-                 existing_names: Optional[Set[str]] = None):
+                 existing_names: Optional[Set[str]] = None, existing_import_lines: Optional[List[str]] = None):
+        self.existing_import_lines = existing_import_lines if existing_import_lines is not None else []
         super().__init__(
             config,
             existing_imports=existing_imports,
@@ -19,3 +21,20 @@ class ConfigFileStr(FileStr):
             existing_body=existing_body,
             existing_names=existing_names
         )
+
+    def _imports_str(self, all_imports: ImportStatementContainer, existing_imports: ImportStatementContainer) -> str:
+        """
+        Keep the existing import lines as they are and add only the new imports. An import which binds the same name
+        as something in the existing file must come first, to not change what that name means in the existing file
+        """
+        first_lines, import_lines = _split_import_lines_where_imports_can_be_inserted(self.existing_import_lines)
+        begin_lines, end_lines = [], []
+        for imp in all_imports:
+            if imp in existing_imports:
+                continue
+            begin = imp.prefer_beginning or any(
+                name in self.existing_names for item, name in imp.items_and_bound_names
+            )
+            (begin_lines if begin else end_lines).append(str(imp))
+
+        return '\n'.join(first_lines + begin_lines + import_lines + end_lines)
-- 
2.43.0


From 30069ef683e16920b6f8c45fef586f1c0f4e4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:41 +0000
Subject: [PATCH 32/47] fix: loading leaves config files without anything to
 add untouched

---
 pyfileconf/io/file/interfaces/config.py | 4 ++++
 pyfileconf/io/file/write/base.py        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index 1659ebf..6ed3a84 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -1,3 +1,4 @@
+import os
 from typing import TYPE_CHECKING
 if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
@@ -17,5 +18,8 @@ class ConfigFileInterface(ConfigFileLoader):
             existing_import_lines=self.import_body
         )
 
+        if os.path.exists(self.filepath) and not file_str_obj.has_additions:
+            return  # keep the file exactly as the user saved it
+
         with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
             f.write(file_str_obj.file_str)
\ No newline at end of file
diff --git a/pyfileconf/io/file/write/base.py b/pyfileconf/io/file/write/base.py
index d938246..7157c4a 100644
--- a/pyfileconf/io/file/write/base.py
+++ b/pyfileconf/io/file/write/base.py
@@ -50,6 +50,10 @@ class FileStr:
             existing_assigns=existing_assigns
         )
 
+        self.has_additions = any([
+            len(all_imports) > len(existing_imports), len(new_assigns_begin) > 0, len(new_assigns_end) > 0
+        ])
+
         # Now convert to str
         items = [
             self._imports_str(all_imports, existing_imports) + '\n',
-- 
2.43.0


From 9ba06923aad16c5cfbf2cedb866b6dd8f6ac17e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:12 +0000
Subject: [PATCH 33/47] fix: positional-only arguments with defaults no longer
 break the load

---
 pyfileconf/io/func/load/args.py   | 3 ++-
 pyfileconf/io/func/load/config.py | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index 7ca8e6d..862bd9f 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -64,7 +64,8 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
         # TODO [#12]: handle other class methods - also update extract_function_definition function
         if ast_function_def.name == '__init__':
             # Got class init
-            del ast_function_def.args.args[0]  # delete first arg (self)
+            positional_only_args = getattr(ast_function_def.args, 'posonlyargs', [])
+            del (positional_only_args or ast_function_def.args.args)[0]  # delete first arg (self)
         function_arg_imports = extract_import_statements_from_function_args_imports_and_assigns(
             ast_function_def.args,
             loader_imports,
diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index 07dfd49..6ec49b4 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -26,8 +26,12 @@ def function_args_as_arg_and_annotation_dict(args: ast.arguments) -> Tuple[dict,
     annotation_dict = {}
 
     # Handle args
-    num_no_default_value = _get_length_of_arg_section(args.args) - _get_length_of_arg_section(args.defaults)
-    all_defaults = [ast.NameConstant(value=None)] * num_no_default_value + _get_list_of_arg_section(args.defaults)
+    num_args = _get_length_of_arg_section(args.args)
+    # Positional-only arguments cannot be passed by name. Their defaults come first
+    defaults = _get_list_of_arg_section(args.defaults)
+    defaults = defaults[max(len(defaults) - num_args, 0):]
+    num_no_default_value = num_args - len(defaults)
+    all_defaults = [ast.NameConstant(value=None)] * num_no_default_value + defaults
     assert len(all_defaults) == _get_length_of_arg_section(args.args)
 
     for i, arg in enumerate(args.args):
-- 
2.43.0


From cbca52b178775024a1e1cd8425df3046e7ccf4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:19 +0000
Subject: [PATCH 34/47] fix: user imports of multiple modules in one statement
 no longer break the load of config files

---
 pyfileconf/imports/models/statements/importbase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index d18489a..71505a2 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -13,6 +13,10 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
 
     #### Common class methods and properties
 
+    def __eq__(self, other):
+        # Different kinds of imports don't have the same attributes to compare
+        return type(self) is type(other) and super().__eq__(other)
+
     @property
     def _renamed(self):
         if self.rename_attr is None:
-- 
2.43.0


From 7e2d1f0a74b5cac75f1b45c8109d49ff5eeb5d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:26 +0000
Subject: [PATCH 35/47] fix: loading does not add an assignment again for a
 name which the config file deletes

---
 pyfileconf/io/file/load/parsers/names.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyfileconf/io/file/load/parsers/names.py b/pyfileconf/io/file/load/parsers/names.py
index d76fb4f..47356a7 100644
--- a/pyfileconf/io/file/load/parsers/names.py
+++ b/pyfileconf/io/file/load/parsers/names.py
@@ -13,8 +13,6 @@ class BoundNameExtractor(ast.NodeVisitor):
     def visit_Name(self, node):
         if isinstance(node.ctx, ast.Store):
             self.names.add(node.id)
-        elif isinstance(node.ctx, ast.Del):
-            self.names.discard(node.id)
 
     def visit_AnnAssign(self, node):
         if node.value is not None:  # annotation only, e.g. a: int, does not bind the name
-- 
2.43.0


From d79c89b442064c76dbcd4a51364048c05dcd39fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 36/47] fix: an assignment added at the top of a config file
 does not rely on imports further down

---
 pyfileconf/io/file/write/config.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pyfileconf/io/file/write/config.py b/pyfileconf/io/file/write/config.py
index 8d5b9ad..7d10642 100644
--- a/pyfileconf/io/file/write/config.py
+++ b/pyfileconf/io/file/write/config.py
@@ -1,9 +1,11 @@
+import ast
 from typing import List, Optional, Set, TYPE_CHECKING
 if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 
 from pyfileconf.config.logic.load import _split_import_lines_where_imports_can_be_inserted
 from pyfileconf.io.file.write.base import FileStr
+from pyfileconf.io.file.load.parsers.imp import extract_imports_from_ast
 
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
@@ -14,6 +16,10 @@ class ConfigFileStr(FileStr):
                  existing_assigns: AssignmentStatementContainer, existing_body: List[str],
                  existing_names: Optional[Set[str]] = None, existing_import_lines: Optional[List[str]] = None):
         self.existing_import_lines = existing_import_lines if existing_import_lines is not None else []
+        if existing_names is not None and any(
+            assign.varname not in existing_names for assign in config.begin_assignments
+        ):
+            existing_imports = self._imports_without_those_too_late_for(config.begin_assignments, existing_imports)
         super().__init__(
             config,
             existing_imports=existing_imports,
@@ -38,3 +44,17 @@ class ConfigFileStr(FileStr):
             (begin_lines if begin else end_lines).append(str(imp))
 
         return '\n'.join(first_lines + begin_lines + import_lines + end_lines)
+
+    def _imports_without_those_too_late_for(self, begin_assigns: AssignmentStatementContainer,
+                                            existing_imports: ImportStatementContainer) -> ImportStatementContainer:
+        """
+        Assignments which get added before the rest of the file can't use imports which are in the rest of the file
+        """
+        top_imports = extract_imports_from_ast(ast.parse('\n'.join(self.existing_import_lines)))
+        used_names = {
+            node.id for assign in begin_assigns for node in ast.walk(assign.value) if isinstance(node, ast.Name)
+        }
+        return ImportStatementContainer([
+            imp for imp in existing_imports
+            if imp in top_imports or not any(name in used_names for item, name in imp.items_and_bound_names)
+        ])
-- 
2.43.0


From 70abf595cd4747f3f5dc9e51c8af65cb173b3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 37/47] fix: an item whose name is also the original name of a
 renamed import is the one imported by that name

---
 pyfileconf/imports/models/statements/container.py  | 8 ++++----
 pyfileconf/imports/models/statements/importbase.py | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index f2f87b7..1c7d3ee 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -94,8 +94,8 @@ class ImportStatementContainer(Container, ReprMixin):
         found_import = False
         for imp in self:
             if isinstance(imp, ModuleImportStatement):
-                if name in imp.modules:
-                    # match on original module name
+                if (name, name.split('.')[0]) in imp.items_and_bound_names:
+                    # match on original module name, under which it is available only if it was not renamed
                     # set up for creating a new import
                     found_import = True
                     renames = None
@@ -114,8 +114,8 @@ class ImportStatementContainer(Container, ReprMixin):
                     # May be multiple modules imported in this one statement. Create a new statement with just this module
                     return ModuleImportStatement(modules=modules, renames=renames)
             elif isinstance(imp, ObjectImportStatement):
-                if name in imp.objs:
-                    # match on original object name
+                if (name, name) in imp.items_and_bound_names:
+                    # match on original object name, under which it is available only if it was not renamed
                     # set up for creating a new import
                     found_import = True
                     renames = None
diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index 71505a2..66cb7c7 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -41,6 +41,9 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
         The imported items and the names by which they are available after the import
         """
         items: List[str] = getattr(self, self.rename_attr)  # type: ignore
-        new_names = self.renames.name_map if self.renames is not None else {}
+        renames = [(rename.item, rename.new_name) for rename in self.renames] if self.renames is not None else []
+        orig_names = [item for item, new_name in renames]
+        # The same item may be imported multiple times, with and without renames
+        not_renamed = [item for item in items if items.count(item) > orig_names.count(item)]
         # import a.b makes only a available
-        return {(item, new_names.get(item, item.split('.')[0])) for item in items}
+        return {(item, item.split('.')[0]) for item in not_renamed} | set(renames)
-- 
2.43.0


From 8f6d7441f0e4ef4eeba6a9f0e69dfb5ee4d088aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:57 +0000
Subject: [PATCH 38/47] fix: an update of a section path which does not exist
 records no dependency

---
 pyfileconf/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 2caab47..cace0a8 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -393,7 +393,9 @@ class PipelineManager:
         if section_path_str:
             # If any of the updates are putting an ItemView as the value, then
             # record that this config is dependent on the config referenced
-            # by the ItemView
+            # by the ItemView. Look up the config first, so that nothing
+            # is recorded for a section path which can't be updated
+            self.config._get_project_config_or_local_config_by_section_path(section_path_str)
             all_updates = {**kwargs}
             if d_ is not None:
                 all_updates.update(d_)
-- 
2.43.0


From b683fd8736824492fd24942edd951480f018d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:15 +0000
Subject: [PATCH 39/47] fix: loading again without reload forgets modules
 imported by the first load, so that a later reload does not import them again

---
 pyfileconf/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index cace0a8..6bcee9c 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -75,6 +75,7 @@ class PipelineManager:
         self.auto_pdb = auto_pdb
         self.force_continue = force_continue
 
+        self._loaded_modules: List[str] = []
         self._registrars: Optional[Sequence[Registrar]] = None
         self._general_registrar: Optional[PipelineRegistrar] = None
 
@@ -320,12 +321,12 @@ class PipelineManager:
             self._load_pipeline_config_and_runner()
         except Exception as e:
             # Reset loaded modules from import, completely canceling load so it can be tried again
-            self._loaded_modules = self._import_tracker.imported_modules
+            self._loaded_modules = self._loaded_modules + self._import_tracker.imported_modules
             self._wipe_loaded_modules()
-            self._loaded_modules = [] # modules have been wiped, must be sure they won't be wiped again
             raise e
 
-        self._loaded_modules = self._import_tracker.imported_modules
+        # Keep the modules which an earlier load imported, as they were not imported again by this load
+        self._loaded_modules = self._loaded_modules + self._import_tracker.imported_modules
         logger.debug(f'Finished running load for {self.name}')
 
     def update(self, d_: dict=None, section_path_str: str=None, pyfileconf_persist: bool = True, **kwargs):
@@ -583,6 +584,7 @@ class PipelineManager:
 
     def _wipe_loaded_modules(self):
         [sys.modules.pop(module, None) for module in self._loaded_modules]
+        self._loaded_modules = []  # modules have been wiped, must be sure they won't be wiped again
         if self._general_registrar is not None:
             # The modules of the items are imported only when the items are first used, after loading
             for view in self._general_registrar.collection._object_views:
-- 
2.43.0


From ca608803314b1235176524325d9b81c6dfd2b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:15 +0000
Subject: [PATCH 40/47] fix: classes and functions which are also imported in
 the script being run get imported from the script

---
 pyfileconf/imports/logic/load/name.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/imports/logic/load/name.py b/pyfileconf/imports/logic/load/name.py
index 0e92b0b..94cf402 100644
--- a/pyfileconf/imports/logic/load/name.py
+++ b/pyfileconf/imports/logic/load/name.py
@@ -14,7 +14,8 @@ def get_imported_obj_variable_name(obj, module: ModuleType) -> str:
 
 def get_module_and_name_imported_from(obj, search_list: List[str]=None) -> Tuple[ModuleType, str]:
     if search_list is None:
-        search_list = list(sys.modules.keys())
+        # The script being run comes last, as other files can't import from it what it has imported
+        search_list = sorted(sys.modules.keys(), key=_is_script_being_run)
 
     for module_name in search_list:
 
@@ -127,3 +128,9 @@ def _should_skip_module(name: str) -> bool:
         if module_section_path.endswith(skip_sp):
             return True
     return False
+
+
+def _is_script_being_run(name: str) -> bool:
+    module = sys.modules[name]
+    # May be available under multiple names, e.g. also as __mp_main__ when using multiprocessing
+    return module is sys.modules.get('__main__') or name == '__mp_main__'
-- 
2.43.0


From 84015cf3666c5d12874b7ea0db236882a1464df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:09 +0000
Subject: [PATCH 41/47] fix: a section config file which raises ValueError no
 longer counts as missing

---
 pyfileconf/config/models/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index 222c6be..a726284 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -91,10 +91,10 @@ class ConfigSection(Container, ReprMixin):
         ]
 
         # Special handling for section config
-        try:
+        if 'section.py' in config_file_list:
             config_file_list.remove('section.py')
             section_config = ActiveFunctionConfig.from_file(os.path.join(basepath, 'section.py'), name=name)
-        except ValueError:
+        else:
             # Didn't find section config
             section_config = None
 
-- 
2.43.0


From 838f6f49f87fed6e2ffcdd666f11c32c36815555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:12 +0000
Subject: [PATCH 42/47] fix: an update with a dict does not modify the passed
 dict

---
 pyfileconf/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 6bcee9c..a453c5d 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -342,6 +342,10 @@ class PipelineManager:
         :param kwargs: kwarg updates
         :return:
         """
+        if d_ is not None:
+            # The passed dictionary must not be modified by adding the updates from plugins
+            d_ = {**d_}
+
         new_updates_list: List[Dict[str, Any]] = plugin_manager.plm.hook.pyfileconf_pre_update(
             pm=self, d_=d_, section_path_str=section_path_str, kwargs=kwargs
         )
-- 
2.43.0


From a619cb306225d67dd2536ef28c53fa28e2fb7117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:12 +0000
Subject: [PATCH 43/47] fix: creating a manager with default_config_folder_name
 creates that folder instead of defaults

---
 pyfileconf/main.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index a453c5d..d739002 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -623,7 +623,10 @@ class PipelineManager:
 
     def _create_project_if_needed(self):
         if self._need_to_create_project():
-            create_project(self.folder, options.log_folder, self.specific_class_config_dicts)
+            create_project(
+                self.folder, options.log_folder, self.specific_class_config_dicts,
+                default_config_folder_name=os.path.basename(self.default_config_path)
+            )
 
     def _need_to_create_project(self) -> bool:
         return any([
@@ -732,11 +735,12 @@ def report_runner_exceptions(runner_exceptions: List[RunnerException]) -> None:
 
 
 def create_project(path: str, logs_path: str,
-                   specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None):
+                   specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None,
+                   default_config_folder_name: str = 'defaults'):
     """
     Creates a new pyfileconf project file structure
     """
-    defaults_path = os.path.join(path, 'defaults')
+    defaults_path = os.path.join(path, default_config_folder_name)
     pipeline_path = os.path.join(path, 'pipeline_dict.py')
 
     if not os.path.exists(defaults_path):
-- 
2.43.0


From a382acafd64d5fbfe33ae1837d519d9ee6fd545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:12 +0000
Subject: [PATCH 44/47] fix: a Selector leaves out managers which are not
 loaded, instead of failing

---
 pyfileconf/selector/models/selector.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index ca9368c..2f4f30c 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -24,8 +24,8 @@ class Selector:
 
         item = SectionPath.from_ambiguous(item).path_str
 
-        if SectionPath(item)[0] not in self._managers:
-            # Not in any manager
+        if SectionPath(item)[0] not in self._structure:
+            # Not in any manager which was loaded when the Selector was created
             return False
 
         collection_obj, relative_section_path = self._get_collection_obj_and_relative_section_path_from_structure(item)
@@ -75,7 +75,7 @@ class Selector:
             'get_type'
         ]
 
-        managers = list(self._managers.keys())
+        managers = list(self._structure.keys())
 
         return exposed_methods + managers
 
@@ -180,6 +180,9 @@ class Selector:
         out_dict = {}
         manager: PipelineManager
         for manager_name, manager in self._managers.items():
+            if manager._general_registrar is None:
+                # Not loaded yet, or the first load failed, so it has no items
+                continue
             manager_dict = {
                 '_general': manager._general_registrar.collection,
             }
-- 
2.43.0


From 7e0215febbed3e2c144b05bee1a04fde5adda450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:49 +0000
Subject: [PATCH 45/47] fix: product cases from plugins may have other items
 than the first case, or be none at all

---
 pyfileconf/iterate.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index f1505de..f86e8b1 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -71,10 +71,6 @@ class IterativeRunner:
 
         if not hasattr(self, 'cases'):
             raise ValueError('must set cases before calling get_defaults')
-        case = self.cases[0]
-        section_path_strs = [
-            self._get_full_section_path_str(conf['section_path_str']) for conf in case
-        ]
         # Only need defaults for what is changed by any of the cases. Applying the rest as updates
         # would detach those values from other configs which they depend on
         changed_keys: Dict[str, set] = defaultdict(set)
@@ -82,7 +78,7 @@ class IterativeRunner:
             for conf in case:
                 changed_keys[self._get_full_section_path_str(conf['section_path_str'])].update(conf)
         defaults: Dict[str, Dict[str, Any]] = {}
-        for sp_str in section_path_strs:
+        for sp_str in changed_keys:
             pm = PipelineManager.get_manager_by_section_path_str(sp_str)
             sp = SectionPath(sp_str)
             relative_section_path_str = SectionPath(".".join(sp[1:])).path_str
-- 
2.43.0


From dbe56bea65fba5037f583d1369d1fa58c945efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:39 +0000
Subject: [PATCH 46/47] fix: dir() of a manager which is not loaded does not
 raise

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index d739002..7773fac 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -108,7 +108,7 @@ class PipelineManager:
         ]
         exposed_attrs = ['name'] + self.specific_class_names
         exposed = exposed_methods + exposed_attrs
-        if hasattr(self, '_registrars'):
+        if self._registrars is not None:
             skip_methods = [
                 'scaffold_config',
                 'basepath',
-- 
2.43.0


From 26ad8cbf0ca4597244f2e800a131417455a58818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:57 +0000
Subject: [PATCH 47/47] fix: AttributeErrors of config files are raised by
 views as they are

---
 pyfileconf/selector/models/itemview.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index db180e2..299e5ac 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -40,19 +40,18 @@ class ItemView:
         # Must be either an attribute of an item, or a typo. Actually look up the item now
 
         try:
-            actual_item = self.item
+            # Do not use self.item. Python would call this method again if it raises AttributeError
+            actual_item = self.selector._get_real_item(self.section_path_str)
         except PipelineManagerNotLoadedException:
             # Dealing with typos is difficult because if this is a typo and we are reaching here,
             # if PipelineManager.load() has not been run yet, we can't know the attributes of the items,
 
             # check whether this is an item attribute or a typo, and raise error if needed
             return handle_pipeline_manager_not_loaded_or_typo(full_section_path_str, self.selector._managers)
-
-        # TODO [#18]: refactor item view lookup errors
-        #
-        #  So that there is a better way of catching a known typo than python throwing a RecursionError
-
-        except RecursionError:
+        except AttributeError as e:
+            if len(SectionPath(self.section_path_str)) > 1 and self.section_path_str in self.selector:
+                # Not a typo, loading an existing item raised this error, e.g. in its config file
+                raise e
             # We are landing here when there is a typo in after the pipeline manager selection of a longer
             # section path, e.g if "this" was portfolio manager name: s.this.tpyo.would.cause.this
             return handle_known_typo_after_pipeline_manager_name(full_section_path_str)
-- 
2.43.0

