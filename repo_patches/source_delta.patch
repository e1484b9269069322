From c6121c30d78cbcc297d8d734187bec5b1ad201b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 01/48] fix: get_cachesim returned the simulator of another
 core count

---
 kerncraft/machinemodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 173ae58..b394839 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -422,7 +422,7 @@ class MachineModel(object):
 
         :param cores: core count (default: 1)
         """
-        if hasattr(self, '_cachesimulator'):
+        if getattr(self, '_cachesimulator_cores', None) == cores:
             self._cachesimulator.mark_all_invalid()
             self._cachesimulator.reset_stats()
         else:
@@ -438,6 +438,7 @@ class MachineModel(object):
                     cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
 
             self._cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
+            self._cachesimulator_cores = cores
 
         return self._cachesimulator
 
-- 
2.43.0


From ef9dd5e0166c6457a378860922e6dc0fdbd7be64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 02/48] fix: get_identifier raised TypeError for machine models
 without a file

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index b394839..604d417 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -406,7 +406,7 @@ class MachineModel(object):
         if self._path:
             return os.path.basename(self._path)
         else:
-            return hashlib.sha256(hashlib.sha256(repr(self._data).encode())).hexdigest()
+            return hashlib.sha256(repr(self._data).encode()).hexdigest()
 
     def get_last_modified_datetime(self):
         """Return datetime object of modified time of machine file. Return now if not a file."""
-- 
2.43.0


From c203e9454a428aace6d15f2a9500940d70927bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 03/48] fix: last modified time of machine models without a
 file was not in UTC

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 604d417..4d4e548 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -414,7 +414,7 @@ class MachineModel(object):
             statbuf = os.stat(self._path)
             return datetime.utcfromtimestamp(statbuf.st_mtime)
         else:
-            return datetime.now()
+            return datetime.utcnow()
 
     def get_cachesim(self, cores=1):
         """
-- 
2.43.0


From 5c96399eefbb82b70ce9bc677b65e0c3c2c65cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 04/48] fix: changing a constant left results computed with its
 old value in use

---
 kerncraft/kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 2baa796..d88da62 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -262,6 +262,9 @@ class Kernel(object):
         # Ensure constants will always be sorted by keys
         self.constants = collections.OrderedDict(
             sorted(self.constants.items(), key=lambda i: str(i[0])))
+        # cached results depend on constants
+        self.subs_consts.cache_clear()
+        self.global_iterator.cache_clear()
 
     def set_variable(self, name, type_, size):
         """
-- 
2.43.0


From c5165cfa3f4082640e320878ecdc628be659f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 05/48] fix: cache predictions for one machine were reused for
 other machines

---
 kerncraft/cacheprediction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 0d7c517..1c45040 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -264,7 +264,7 @@ class LayerConditionPredictor(CachePredictor):
             # Make use of caching for symbolic LC representation:
             file_name = 'LC_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
-                file_name, machine_and_compiler_dependent=False, other_dependencies=[str(cores)])
+                file_name, machine_and_compiler_dependent=False, other_dependencies=[machine.get_identifier(), str(cores)])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
@@ -517,7 +517,8 @@ class CacheSimulationPredictor(CachePredictor):
             file_name = 'CSIM_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
                 file_name, machine_and_compiler_dependent=False,
-                other_dependencies=[str(cores)]+[str(t) for t in self.kernel.constants.items()])
+                other_dependencies=[machine.get_identifier(), str(cores)]+[
+                    str(t) for t in self.kernel.constants.items()])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
-- 
2.43.0


From 80325def451c517f98dc3509bc19314739e90306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 06/48] fix: main.c with another machine's cacheline alignment
 was reused

---
 kerncraft/kernel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index d88da62..8e28702 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1527,7 +1527,9 @@ class KernelCode(Kernel):
         assert self.kernel_ast is not None, "AST does not exist, this could be due to running " \
                                             "based on a kernel description rather than code."
 
-        file_path = self.get_intermediate_location('main.c', machine_and_compiler_dependent=False)
+        file_path = self.get_intermediate_location(
+            'main.c', machine_and_compiler_dependent=False,
+            other_dependencies=[self._machine.get_identifier()])
         lock_mode, lock_fp = self.lock_intermediate(file_path)
 
         if lock_mode == fcntl.LOCK_SH:
-- 
2.43.0


From aa244d4e2c05d5e6179c5e6fcf400723f1795508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 07/48] fix: in-core analysis ignored changed asm block and
 pointer increment settings

---
 kerncraft/kernel.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 8e28702..00570b1 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1583,15 +1583,19 @@ class KernelCode(Kernel):
         return file_path, lock_fp
 
 
-    def assemble_to_object(self, in_filename, verbose=False):
+    def assemble_to_object(self, in_filename, verbose=False, other_dependencies=()):
         """
         Assemble *in_filename* assembly into *out_filename* object.
 
+        :param other_dependencies: list of strings *in_filename* depends on, in addition to machine
+                                   and compiler (see get_intermediate_location)
+
         Returns tuple of filename to binary file and shared lock file pointer
         """
         # Build file name
         file_base_name = os.path.splitext(os.path.basename(in_filename))[0]
-        out_filename = self.get_intermediate_location(file_base_name + '.o')
+        out_filename = self.get_intermediate_location(
+            file_base_name + '.o', other_dependencies=other_dependencies)
         lock_mode, lock_fp = self.lock_intermediate(out_filename)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1703,8 +1707,10 @@ class KernelCode(Kernel):
         model = self._machine.get_incore_model(model)
         model_parameter = self._machine['in-core model'][model]
 
+        # asm_block is going to be overwritten by the block number which was choosen
+        marker_dependencies = [asm_block, pointer_increment]
         analysis_filename = self.get_intermediate_location('incore_analysis.pickle.lzma',
-            other_dependencies=[model, str(model_parameter)])
+            other_dependencies=[model, str(model_parameter)] + marker_dependencies)
         analysis_lock_mode, analysis_lock_fp = self.lock_intermediate(analysis_filename)
         if analysis_lock_mode == fcntl.LOCK_SH:
             # use cached analysis
@@ -1713,7 +1719,7 @@ class KernelCode(Kernel):
             return analysis, self.pointer_increment
         
         marked_filename = self.get_intermediate_location('kernel-marked.s',
-            other_dependencies=[asm_block, pointer_increment])
+            other_dependencies=marker_dependencies)
         lock_mode, marked_lock_fp = self.lock_intermediate(marked_filename)
         if lock_mode == fcntl.LOCK_SH:
             # use cached maked assembly and extract asm_block and pointer_increment
@@ -1746,7 +1752,8 @@ class KernelCode(Kernel):
             analysis = incore_model.llvm_mca_analyse_instrumented_assembly(
                 marked_filename, model_parameter, isa=self._machine['isa'])
         elif model == 'IACA':
-            obj_name, obj_lock_fp = self.assemble_to_object(marked_filename, verbose=verbose)
+            obj_name, obj_lock_fp = self.assemble_to_object(
+                marked_filename, other_dependencies=marker_dependencies, verbose=verbose)
             analysis = incore_model.iaca_analyse_instrumented_binary(obj_name, model_parameter)
             obj_lock_fp.close()
         else:
-- 
2.43.0


From a048e2b8d41c01f1e373db66e173c91ee9930f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 08/48] fix: parts of the reports ignored the requested output
 stream

---
 kerncraft/models/benchmark.py       | 18 +++++++++---------
 kerncraft/models/ecm.py             |  6 +++---
 kerncraft/models/layer_condition.py | 15 +++++++++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 9f6b840..cecb3ff 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -527,7 +527,7 @@ class Benchmark(PerformanceModel):
         """Report gathered analysis data in human readable form."""
         if self.verbose > 1:
             with pprint_nosort():
-                pprint.pprint(self.results)
+                pprint.pprint(self.results, stream=output_file)
 
         if self.verbose > 0:
             print('Runtime (per repetition): {:.2g} s'.format(
@@ -555,19 +555,19 @@ class Benchmark(PerformanceModel):
         print('', file=output_file)
 
         if not self.no_phenoecm:
-            print("Data Transfers:")
-            print("{:^8} |".format("cache"), end='')
+            print("Data Transfers:", file=output_file)
+            print("{:^8} |".format("cache"), end='', file=output_file)
             metric_names = ['loads', 'misses', 'stores', 'evicts']
             for mn in metric_names:
-                print(" {:^14}".format(mn), end='')
-            print()
+                print(" {:^14}".format(mn), end='', file=output_file)
+            print(file=output_file)
             for cache, metrics in sorted(self.results['data transfers'].items()):
-                print("{!s:^8} |".format(cache), end='')
+                print("{!s:^8} |".format(cache), end='', file=output_file)
                 for mn in metric_names:
                     v = metrics.get(mn, '-')
-                    print(" {!s:^14}".format(v), end='')
-                print()
-            print()
+                    print(" {!s:^14}".format(v), end='', file=output_file)
+                print(file=output_file)
+            print(file=output_file)
 
             print('Phenomenological ECM model: {{ {T_OL:.1f} || {T_nOL:.1f} | {T_L1L2:.1f} | '
                   '{T_L2L3:.1f} | {T_MEM:.1f} }} cy/CL'.format(
diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 663b9b6..6a9e341 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -216,7 +216,7 @@ class ECMData(PerformanceModel):
                 level, self.conv_cy(cycles)[self._args.unit]), file=output_file)
 
         if self.results['penalty']:
-            print('penalty cycles: {:.2f} cy/CL'.format(self.results['penalty']))
+            print('penalty cycles: {:.2f} cy/CL'.format(self.results['penalty']), file=output_file)
 
         if self.verbose > 1:
             if 'memory bandwidth kernel' in self.results:
@@ -568,8 +568,8 @@ class ECM(PerformanceModel):
         """Print generated model data in human readable format."""
         report = ''
         if self.verbose > 1:
-            self._CPU.report()
-            self._data.report()
+            self._CPU.report(output_file=output_file)
+            self._data.report(output_file=output_file)
 
         model_construction = 'max({}, sum({})) cy/CL'.format(
             ', '.join(self.results['ECM Model Construction'][:-1]),
diff --git a/kerncraft/models/layer_condition.py b/kerncraft/models/layer_condition.py
index fc89b3c..8b9db75 100755
--- a/kerncraft/models/layer_condition.py
+++ b/kerncraft/models/layer_condition.py
@@ -52,16 +52,19 @@ class LC(PerformanceModel):
     def report(self, output_file=sys.stdout):
         """Report generated model in human readable form."""
         if self._args and self._args.verbose > 2:
-            pprint(self.results)
-            print()
+            pprint(self.results, stream=output_file)
+            print(file=output_file)
 
         for cache, cache_results in zip(
                 self.machine.get_cachesim(self._args.cores).levels(with_mem=False),
                 self.results['cache']):
-            print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:")
-            print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"))
+            print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:",
+                  file=output_file)
+            print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"),
+                  file=output_file)
             for lc_condition in cache_results:
                 print("    {!r:>35} {:>7} {:>5}".format(lc_condition['condition'],
                                                       lc_condition['misses'],
-                                                      lc_condition['hits']))
-            print()
+                                                      lc_condition['hits']),
+                      file=output_file)
+            print(file=output_file)
-- 
2.43.0


From 3702a1ffa1bde1b35a8fe27e5d942b6ca642484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:20 +0000
Subject: [PATCH 09/48] fix: parts of the stand-alone report ignored the
 requested output stream

---
 kerncraft/models/standalone_benchmark.py | 20 ++++++++++----------
 kerncraft/standalone_pheno.py            |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 2e5c3c0..1180d9c 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -450,11 +450,11 @@ class StandaloneBenchmark(PerformanceModel):
 
         for region in self.kernel.regions:
 
-            print('\nResults for region \'{}\'\n'.format(region))
+            print('\nResults for region \'{}\'\n'.format(region), file=output_file)
 
             if self.verbose > 1:
                 with pprint_nosort():
-                    pprint.pprint(self.results[region])
+                    pprint.pprint(self.results[region], stream=output_file)
 
             if self.verbose > 0:
                 print('Runtime (per repetition): {:.2g} s'.format(
@@ -484,19 +484,19 @@ class StandaloneBenchmark(PerformanceModel):
             print(file=output_file)
 
             if not self.no_phenoecm:
-                print("Data Transfers:")
-                print("{:^8} |".format("cache"), end='')
+                print("Data Transfers:", file=output_file)
+                print("{:^8} |".format("cache"), end='', file=output_file)
                 for metrics in self.results[region]['data transfers'].values():
                     for metric_name in sorted(metrics):
-                        print(" {:^14}".format(metric_name), end='')
-                    print()
+                        print(" {:^14}".format(metric_name), end='', file=output_file)
+                    print(file=output_file)
                     break
                 for cache, metrics in sorted(self.results[region]['data transfers'].items()):
-                    print("{!s:^8} |".format(cache), end='')
+                    print("{!s:^8} |".format(cache), end='', file=output_file)
                     for k, v in sorted(metrics.items()):
-                        print(" {!s:^14}".format(v), end='')
-                    print()
-                print()
+                        print(" {!s:^14}".format(v), end='', file=output_file)
+                    print(file=output_file)
+                print(file=output_file)
 
                 print('Phenomenological ECM model: {{ {T_OL:.1f} || {T_nOL:.1f} | {T_L1L2:.1f} | '
                       '{T_L2L3:.1f} | {T_L3MEM:.1f} }} cy/CL'.format(
diff --git a/kerncraft/standalone_pheno.py b/kerncraft/standalone_pheno.py
index 7dd6db5..586ec00 100644
--- a/kerncraft/standalone_pheno.py
+++ b/kerncraft/standalone_pheno.py
@@ -359,7 +359,7 @@ def run(parser, args, output_file = sys.stdout):
     # set up benchmark
     model = StandaloneBenchmark(kernel, machine, args, parser)
 
-    model.analyze()
+    model.analyze(output_file=output_file)
 
     # print header
     print('\n\n{:^80}'.format(' stand-alone kerncraft benchmark '), file=output_file)
-- 
2.43.0


From 9b87a7b323a72325bd5536470e8cea582e314d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 10/48] fix: comparing with the current system changed the
 memoized machine readouts

---
 kerncraft/machinemodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 4d4e548..c1cd054 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -553,7 +553,8 @@ class MachineModel(object):
 
         :return: True if it is the same
         """
-        current_topology = get_machine_readouts()
+        # copies, because returned dictionaries are memoized
+        current_topology = dict(get_machine_readouts())
         current_topology.update(get_memory_hierarchy())
         same = True
         for k in ['model type', 'model name', 'sockets', 'cores per socket', 'threads per core',
-- 
2.43.0


From 13174e7c39359552bebf604a903456fa2a7d4085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 11/48] fix: updating a machine model changed other models
 loaded from the same file

---
 kerncraft/machinemodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index c1cd054..09cf00f 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -163,7 +163,8 @@ class MachineModel(object):
                 with open(path_to_yaml, 'r') as f:
                     # Ignore ruamel unsafe loading warning, by supplying Loader parameter
                     self._loaded_machine_yaml[abspath_to_yaml] = yaml.load(f)
-            self._data = self._loaded_machine_yaml[abspath_to_yaml]
+            # Models can be updated, so each needs its own copy
+            self._data = deepcopy(self._loaded_machine_yaml[abspath_to_yaml])
         elif machine_yaml:
             self._data = machine_yaml
 
-- 
2.43.0


From 930b257b0548df2108d870ffdfc353b13d00f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 12/48] fix: reading the kernel loop nest changed OpenMP
 pragmas in the kernel AST

---
 kerncraft/kernel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 00570b1..730c570 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1216,8 +1216,9 @@ class KernelCode(Kernel):
         """
         Return kernel loop nest, with openmp pragmas insert unless already present.
         """
-        loop_nest = [s for s in self.kernel_ast.block_items
-                     if type(s) in [c_ast.For, c_ast.Pragma, c_ast.FuncCall]]
+        with set_recursionlimit(100000):
+            loop_nest = deepcopy([s for s in self.kernel_ast.block_items
+                                  if type(s) in [c_ast.For, c_ast.Pragma, c_ast.FuncCall]])
         assert len(loop_nest) >= 1, "Found to few for statements in kernel"
 
         omp_pragmas = [p for p in find_node_type(loop_nest, c_ast.Pragma)
-- 
2.43.0


From b24593f6d24d2fcb2193cd65df29fcff67e7e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 13/48] fix: building an executable extended the list of linker
 flags given by the caller

---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 730c570..5fc9b61 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1801,7 +1801,7 @@ class KernelCode(Kernel):
 
             if lflags is None:
                 lflags = []
-            lflags += os.environ['LIKWID_LIB'].split(' ') + ['-pthread']
+            lflags = lflags + os.environ['LIKWID_LIB'].split(' ') + ['-pthread']
             compiler_args += os.environ['LIKWID_LIB'].split(' ') + ['-pthread']
 
             main_filename, main_lock_fp = self.get_main_code()
-- 
2.43.0


From 5508ed95cd73257d36028dd292a3f0c01d25d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 14/48] fix: combining intervals changed the ranges of the
 operands

---
 kerncraft/intervals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/intervals.py b/kerncraft/intervals.py
index a2f77ee..1bccbe9 100755
--- a/kerncraft/intervals.py
+++ b/kerncraft/intervals.py
@@ -7,7 +7,8 @@ class Intervals(object):
 
     def __init__(self, *args, **kwargs):
         """If keywords *sane* is True (default: False), checks will not be done on given data."""
-        self.data = list(args)
+        # copies, because ranges may be enlarged later on
+        self.data = [list(d) for d in args]
         if not kwargs.get('sane', False):
             self.data = [d for d in self.data if d[1] > d[0]]
             self._enforce_order()
-- 
2.43.0


From f45f7688e67d3805eb48b1aec37f87567279a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 15/48] fix: get_cachesim kept using the old memory hierarchy
 after an update

---
 kerncraft/machinemodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 09cf00f..0b63641 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -189,6 +189,8 @@ class MachineModel(object):
     def update(self, readouts=True, memory_hierarchy=True, benchmarks=True, overwrite=True,
                machine_state=True, cpuinfo_path: str='/proc/cpuinfo'):
         """Update model from readouts and benchmarks on current machine."""
+        # cache simulator was built from the old description
+        self._cachesimulator_cores = None
         if readouts:
             self._data.update(get_machine_readouts(cpuinfo_path=cpuinfo_path))
         if memory_hierarchy:
-- 
2.43.0


From 42e168b5312f88239953d4d6a236dcfbcff8bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:02 +0000
Subject: [PATCH 16/48] fix: changing a constant of a binary description left
 old substitutions in use

---
 kerncraft/kernel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 5fc9b61..33ec642 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -2051,3 +2051,5 @@ class BinaryDescription(Kernel):
             self.constants[name] = value
         else:
             self.constants[symbol_pos_int(name)] = value
+        # cached results depend on constants
+        self.subs_consts.cache_clear()
-- 
2.43.0


From 469d6b08bc4a2f6f91c4991a73e950500e802cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 17/48] fix: values given several times for one constant were
 analysed repeatedly

---
 kerncraft/kerncraft.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 6e96958..934d9ee 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -353,16 +353,16 @@ def run(parser, args, output_file=sys.stdout):
             default_const_values = dict(args.define)['.']
             for name in required_consts:
                 name = str(name)
-                define_dict[str(name)] = [[str(name), v] for v in default_const_values]
+                define_dict[str(name)] = [[str(name), v] for v in uniquify(default_const_values)]
         for name, values in args.define:
             if name not in [str(n) for n in required_consts]:
                 # ignore
                 continue
             if name not in define_dict:
-                define_dict[name] = [[name, v] for v in values]
+                define_dict[name] = [[name, v] for v in uniquify(values)]
                 continue
             for v in values:
-                if v not in define_dict[name]:
+                if [name, v] not in define_dict[name]:
                     define_dict[name].append([name, v])
         define_product = list(itertools.product(*list(define_dict.values())))
         # Check that all consts have been defined
-- 
2.43.0


From b5ee2c7e458720b52f2761614da264d177584b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 18/48] fix: order of constants in result keys was random with
 -D . defaults

---
 kerncraft/kerncraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 934d9ee..3a5e52a 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -351,7 +351,7 @@ def run(parser, args, output_file=sys.stdout):
         # Prefill with default value, if any is given
         if '.' in [n for n,v in args.define]:
             default_const_values = dict(args.define)['.']
-            for name in required_consts:
+            for name in sorted(required_consts, key=str):
                 name = str(name)
                 define_dict[str(name)] = [[str(name), v] for v in uniquify(default_const_values)]
         for name, values in args.define:
-- 
2.43.0


From c1ea0f11110db8891712f7676408ade1dbd5a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 19/48] fix: only the last of several -D . options was used

---
 kerncraft/kerncraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 3a5e52a..683d90a 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -350,7 +350,7 @@ def run(parser, args, output_file=sys.stdout):
         args.define.sort()
         # Prefill with default value, if any is given
         if '.' in [n for n,v in args.define]:
-            default_const_values = dict(args.define)['.']
+            default_const_values = [v for n, values in args.define if n == '.' for v in values]
             for name in sorted(required_consts, key=str):
                 name = str(name)
                 define_dict[str(name)] = [[str(name), v] for v in uniquify(default_const_values)]
-- 
2.43.0


From 447d08def0151c97bdf54e0f14445757f94e1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 20/48] fix: abstract PerformanceModel was offered as an
 applicable model

---
 kerncraft/models/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/models/__init__.py b/kerncraft/models/__init__.py
index e80dfad..49be020 100644
--- a/kerncraft/models/__init__.py
+++ b/kerncraft/models/__init__.py
@@ -12,5 +12,6 @@ from .base import PerformanceModel
 
 RooflineIACA = RooflineASM  # for downward compatability
 
+# applicable models (PerformanceModel is only their abstract base)
 __all__ = ['ECM', 'ECMData', 'ECMCPU', 'RooflineFLOP', 'RooflineASM', 'Benchmark', 'LC',
-           'PerformanceModel', 'RooflineIACA']
+           'RooflineIACA']
-- 
2.43.0


From 9bf2806d86aea1fdcb1a44d03be65ae6c453d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:53 +0000
Subject: [PATCH 21/48] fix: picklemerge failed with Python 3.10 and later

---
 kerncraft/picklemerge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index e2bf290..ced0646 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -2,7 +2,7 @@
 """Merge two pickle files containing dictionarys recursively."""
 import argparse
 import pickle
-import collections
+from collections.abc import Mapping
 
 
 def update(d, u):
@@ -12,7 +12,7 @@ def update(d, u):
     Origin: http://stackoverflow.com/a/3233356/2754040
     """
     for k, v in u.items():
-        if isinstance(v, collections.Mapping):
+        if isinstance(v, Mapping):
             r = update(d.get(k, {}), v)
             d[k] = r
         else:
@@ -33,11 +33,11 @@ def main():
     args = parser.parse_args()
 
     result = pickle.load(args.destination)
-    assert isinstance(result, collections.Mapping), "only Mapping types can be handled."
+    assert isinstance(result, Mapping), "only Mapping types can be handled."
 
     for s in args.source:
         data = pickle.load(s)
-        assert isinstance(data, collections.Mapping), "only Mapping types can be handled."
+        assert isinstance(data, Mapping), "only Mapping types can be handled."
 
         update(result, data)
 
-- 
2.43.0


From 2d13b87e5150c127ea0c5b686f98c75cf1d123fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:53 +0000
Subject: [PATCH 22/48] fix: picklemerge destroyed the destination if writing
 failed

---
 kerncraft/picklemerge.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index ced0646..f044c66 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -2,6 +2,7 @@
 """Merge two pickle files containing dictionarys recursively."""
 import argparse
 import pickle
+import shutil
 from collections.abc import Mapping
 
 
@@ -41,9 +42,12 @@ def main():
 
         update(result, data)
 
-    args.destination.seek(0)
-    args.destination.truncate()
-    pickle.dump(result, args.destination)
+    # replace destination only by a completely written file
+    args.destination.close()
+    temp_name = args.destination.name + '.tmp'
+    with open(temp_name, 'wb') as f:
+        pickle.dump(result, f)
+    shutil.move(temp_name, args.destination.name)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 0a70e3024b9c71bf8b2a161921738b631566cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 23/48] fix: interrupted creation of intermediates left
 incomplete files in use

---
 kerncraft/cacheprediction.py |  2 ++
 kerncraft/kernel.py          | 21 ++++++++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 1c45040..54b2d0b 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -274,6 +274,7 @@ class LayerConditionPredictor(CachePredictor):
                 # needs update
                 self.build_symbolic_LCs()
                 compress_pickle.dump(self.results, file_path)
+                kernel.release_exclusive_lock(lock_fp)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
@@ -533,6 +534,7 @@ class CacheSimulationPredictor(CachePredictor):
                 compress_pickle.dump(
                     {'first_dim_factor': self.first_dim_factor, 'stats': self.stats, 'pretty_stats': self.pretty_stats},
                     file_path)
+                kernel.release_exclusive_lock(lock_fp)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 33ec642..45ea185 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -810,6 +810,11 @@ class KernelCode(Kernel):
                     return True
         return False
 
+    @staticmethod
+    def _is_complete(lock_fp):
+        """Return True, if creation of intermediate (protected by lock_fp) was not interrupted."""
+        return os.fstat(lock_fp.fileno()).st_size == 0
+
     def lock_intermediate(self, file_path):
         """
         Lock intermediate. Depending on state, readable or writable.
@@ -826,7 +831,8 @@ class KernelCode(Kernel):
         """
         lock_filename = file_path + '.lock'
         # 1. Open lockfile (create and write)
-        lock_fp = open(lock_filename, 'w+')
+        #    content marks an intermediate whose creation has not been completed: do not truncate
+        lock_fp = open(lock_filename, 'a+')
         # 2. Acquire SH lock (blocking)
         try:
             fcntl.flock(lock_fp, fcntl.LOCK_SH)
@@ -836,7 +842,7 @@ class KernelCode(Kernel):
                   file=sys.stderr)
             return (fcntl.LOCK_EX, lock_fp)
         # 3. Check existence and freshness
-        if self._check_freshness(file_path):
+        if self._is_complete(lock_fp) and self._check_freshness(file_path):
             # -> READ MODE
             return (fcntl.LOCK_SH, lock_fp)
         # 4. Release SH lock (to allow other processes already awaiting an exclusive lock to enter)
@@ -844,20 +850,24 @@ class KernelCode(Kernel):
         # 5. Acquire EX lock (blocking)
         fcntl.flock(lock_fp, fcntl.LOCK_EX)
         # 6. Check if file is now fresh (things may have changed!)
-        if self._check_freshness(file_path):
+        if self._is_complete(lock_fp) and self._check_freshness(file_path):
             # Acquire SH lock (this will replace EX lock in-place)
             fcntl.flock(lock_fp, fcntl.LOCK_SH)
             # -> READ MODE
             return (fcntl.LOCK_SH, lock_fp)
         # else: -> WRITE MODE
+        # If creation is interrupted, the mark tells others that the file may be incomplete
+        os.write(lock_fp.fileno(), b'incomplete')
         return (fcntl.LOCK_EX, lock_fp)
 
     def release_exclusive_lock(self, lock_fd):
         """
         Release exclusive lock and degrade to shared lock.
 
-        Shared lock is released by closing the file descriptor.
+        Must only be called once the intermediate has been completely written. Shared lock is
+        released by closing the file descriptor.
         """
+        os.ftruncate(lock_fd.fileno(), 0)  # intermediate is complete
         try:
             fcntl.flock(lock_fd, fcntl.LOCK_SH)
         except OSError:
@@ -1760,8 +1770,9 @@ class KernelCode(Kernel):
         else:
             raise ValueError("Unknown micro-architecture model: {!r}".format(model))
         compress_pickle.dump((analysis, self.pointer_increment), analysis_filename)
-        analysis_lock_fp.close()
         marked_lock_fp.close()
+        self.release_exclusive_lock(analysis_lock_fp)
+        analysis_lock_fp.close()
         return analysis, self.pointer_increment
 
     def build_executable(self, lflags=None, verbose=False, openmp=False):
-- 
2.43.0


From fd99a420cdd7b62c3c6b6c8e37911552f1ece9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 24/48] fix: ECM reported cycles per iteration multiplied by
 elements per cacheline

---
 kerncraft/models/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 6a9e341..f27fbfa 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -362,7 +362,7 @@ class ECMCPU(PerformanceModel):
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl*elements_per_cacheline
+        cy_it = cy_cl/elements_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
-- 
2.43.0


From 42addf3c9263e8719ce343714cba51c5a154afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 25/48] fix: unit of infinite performance in ECMData was not
 It/s

---
 kerncraft/models/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index f27fbfa..d1f009d 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -183,7 +183,7 @@ class ECMData(PerformanceModel):
             it_s = clock/cy_cl*elements_per_cacheline
             it_s.unit = 'It/s'
         else:
-            it_s = PrefixedUnit('inf It/S')
+            it_s = PrefixedUnit('inf It/s')
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-- 
2.43.0


From 53f1da56125b265c90f375721fb8df7a2cbd25d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 26/48] fix: roofline crashed for kernels without L1 transfers

---
 kerncraft/models/roofline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 91ab6a9..2a97de1 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -99,8 +99,8 @@ class RooflineFLOP(PerformanceModel):
         # arithmetic intensity = Iterations / bytes loaded
         if total_loads == 0:
             # This happens in case of full-caching
-            arith_intens = None
-            it_s = None
+            arith_intens = float('inf')
+            it_s = PrefixedUnit(float('inf'), 'It/s')
         else:
             arith_intens = 1.0/(total_loads/elements_per_cacheline)
             it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
-- 
2.43.0


From df01701f1d705e84fe9dd4b5220981a67efd5138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 27/48] fix: roofline used single precision peak for double
 precision kernels

---
 kerncraft/models/roofline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 2a97de1..9681620 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -158,7 +158,7 @@ class RooflineFLOP(PerformanceModel):
 
     def analyze(self):
         """Run analysis."""
-        precision = 'DP' if self.kernel.datatype == 'double' else 'SP'
+        precision = 'DP' if 'double' in self.kernel.datatype else 'SP'
         self.calculate_cache_access()
 
         self.results['max_perf'] = self.conv_perf(self.machine['clock'] * self.cores * \
-- 
2.43.0


From 2571547e811ec92fbac240665966bc69bfa027d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 28/48] fix: roofline took peak FLOP/s for iterations per
 second

---
 kerncraft/models/roofline.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 9681620..496d94b 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -161,8 +161,14 @@ class RooflineFLOP(PerformanceModel):
         precision = 'DP' if 'double' in self.kernel.datatype else 'SP'
         self.calculate_cache_access()
 
-        self.results['max_perf'] = self.conv_perf(self.machine['clock'] * self.cores * \
-            self.machine['FLOPs per cycle'][precision]['total'])
+        max_flops = self.machine['clock'] * self.cores * \
+            self.machine['FLOPs per cycle'][precision]['total']
+        flops_per_it = sum(self.kernel._flops.values())
+        if flops_per_it == 0:
+            max_it_s = PrefixedUnit(float('inf'), 'It/s')
+        else:
+            max_it_s = PrefixedUnit(float(max_flops)/flops_per_it, 'It/s')
+        self.results['max_perf'] = self.conv_perf(max_it_s)
 
     def conv_perf(self, it_s):
         """Convert performance (It/s) to other units, such as FLOP/s or cy/CL."""
@@ -208,7 +214,8 @@ class RooflineFLOP(PerformanceModel):
 
         if self.results['min performance']['FLOP/s'] > max_perf['FLOP/s']:
             # CPU bound
-            print('CPU bound. {!s} due to CPU max. FLOP/s'.format(max_perf), file=output_file)
+            print('CPU bound. {!s} due to CPU max. FLOP/s'.format(max_perf[self._args.unit]),
+                  file=output_file)
         else:
             # Cache or mem bound
             print('Cache or mem bound.', file=output_file)
-- 
2.43.0


From 9ea4e8249a28d56a63bc6198e752bb9dfcb719ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 29/48] fix: prefixes T, P and E of units stood for ten times
 their value

---
 kerncraft/prefixedunit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index 8268a30..ac5f7e9 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -5,7 +5,7 @@ import ruamel.yaml
 
 
 class PrefixedUnit(ruamel.yaml.YAMLObject):
-    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e13, 'P': 1e16, 'E': 1e19, 'Z': 1e21, 'Y': 1e24,
+    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e12, 'P': 1e15, 'E': 1e18, 'Z': 1e21, 'Y': 1e24,
                 '': 1}
 
 
-- 
2.43.0


From 1bdd22cb27c7538d4b9193a04924dfd33bb35601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 30/48] fix: loops with a step other than one were mapped to
 wrong loop counters

---
 kerncraft/kernel.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 45ea185..54253e7 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -482,15 +482,13 @@ class Kernel(object):
         base_loop_counters = {}
         global_iterator = symbol_pos_int('global_iterator')
         total_length = 1
-        last_incr = 1
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
 
             # This unspools the iterations:
             length = int_ceil((end-start), incr)
-            counter = start+(((global_iterator*last_incr) // total_length)*incr) % length
+            counter = start+((global_iterator // total_length) % length)*incr
             total_length = total_length*length
-            last_incr = incr
 
             base_loop_counters[loop_var] = sympy.lambdify(
                 global_iterator,
@@ -516,7 +514,7 @@ class Kernel(object):
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
             length = int_ceil((end-start), incr)
-            global_iterator += (loop_var - start) * total_length
+            global_iterator += (loop_var - start)/incr * total_length
             total_length *= length
         return global_iterator
 
@@ -532,7 +530,8 @@ class Kernel(object):
     def max_global_iteration(self):
         """Return global iterator with last iteration number"""
         return self.indices_to_global_iterator({
-            symbol_pos_int(var_name): end-1 for var_name, start, end, incr in self._loop_stack
+            symbol_pos_int(var_name): start + (int_ceil(end-start, incr) - 1)*incr
+            for var_name, start, end, incr in self._loop_stack
         })
 
     def compile_global_offsets(self, iteration=0, spacing=0):
-- 
2.43.0


From 69fc3c84396cc37192ba738b12a80c4ee4acab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 31/48] fix: iterations per second counted elements in loops
 with a step other than one

---
 kerncraft/models/ecm.py      | 16 ++++++++--------
 kerncraft/models/roofline.py | 20 +++++++++++---------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index d1f009d..3e91c81 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -177,17 +177,17 @@ class ECMData(PerformanceModel):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
 
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = (float(self.machine['cacheline size']) /
+                                    float(self.kernel.bytes_per_iteration))
         if cy_cl != 0:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
             it_s.unit = 'It/s'
         else:
             it_s = PrefixedUnit('inf It/s')
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl/elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
@@ -352,17 +352,17 @@ class ECMCPU(PerformanceModel):
         if not isinstance(cy_cl, PrefixedUnit):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = (float(self.machine['cacheline size']) /
+                                    float(self.kernel.bytes_per_iteration))
         if cy_cl == 0.0:
             it_s = PrefixedUnit(float('inf'))
         else:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
         it_s.unit = 'It/s'
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl/elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 496d94b..fb175fc 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -66,9 +66,10 @@ class RooflineFLOP(PerformanceModel):
 
         element_size = self.kernel.datatypes_size[self.kernel.datatype]
         cacheline_size = float(self.machine['cacheline size'])
-        elements_per_cacheline = int(cacheline_size // element_size)
+        iterations_per_cacheline = cacheline_size / float(self.kernel.bytes_per_iteration)
+        l1_iterations = max(1, int(iterations_per_cacheline))
 
-        total_flops = sum(self.kernel._flops.values())*elements_per_cacheline
+        total_flops = sum(self.kernel._flops.values())*iterations_per_cacheline
 
         # TODO let user choose threads_per_core:
         threads_per_core = 1
@@ -78,7 +79,7 @@ class RooflineFLOP(PerformanceModel):
         # CPU-L1 stats (in bytes!)
         # We compile CPU-L1 stats on our own, because cacheprediction only works on cache lines
         read_offsets, write_offsets = zip(*list(self.kernel.compile_global_offsets(
-            iteration=range(0, elements_per_cacheline))))
+            iteration=range(0, l1_iterations))))
         read_offsets = set([item for sublist in read_offsets if sublist is not None
                             for item in sublist])
         write_offsets = set([item for sublist in write_offsets if sublist is not None
@@ -102,7 +103,7 @@ class RooflineFLOP(PerformanceModel):
             arith_intens = float('inf')
             it_s = PrefixedUnit(float('inf'), 'It/s')
         else:
-            arith_intens = 1.0/(total_loads/elements_per_cacheline)
+            arith_intens = 1.0/(total_loads/l1_iterations)
             it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
 
         self.results['mem bottlenecks'].append({
@@ -140,7 +141,7 @@ class RooflineFLOP(PerformanceModel):
                 arith_intens = float('inf')
                 it_s = PrefixedUnit(float('inf'), 'It/s')
             else:
-                arith_intens = 1/(bytes_transfered/elements_per_cacheline)
+                arith_intens = 1/(bytes_transfered/iterations_per_cacheline)
                 it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
 
             self.results['mem bottlenecks'].append({
@@ -176,9 +177,9 @@ class RooflineFLOP(PerformanceModel):
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(float(self.machine['cacheline size'])) / element_size
-        cy_cl = clock/it_s*elements_per_cacheline
+        iterations_per_cacheline = (float(self.machine['cacheline size']) /
+                                    float(self.kernel.bytes_per_iteration))
+        cy_cl = clock/it_s*iterations_per_cacheline
         cy_cl.unit = 'cy/CL'
         cy_it = clock/it_s
         cy_it.unit = 'cy/It'
@@ -341,7 +342,8 @@ class RooflineASM(RooflineFLOP):
                 'cl throughput': cl_throughput,
                 'uops': uops,
                 'performance throughput': self.conv_perf(PrefixedUnit(
-                    self.machine['clock']/block_throughput*elements_per_block
+                    self.machine['clock']/block_throughput
+                    * abs(pointer_increment/self.kernel.bytes_per_iteration)
                     * self.cores, "It/s")),
                 'in-core model output': incore_output}})
 
-- 
2.43.0


From fca03d48a2c0abd2c85f3d783a188507fd6e0c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 32/48] fix: ++ and -- in expressions were counted as wrong
 numbers of operations and not as writes

---
 kerncraft/kernel.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 54253e7..1b22d6c 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1158,7 +1158,15 @@ class KernelCode(Kernel):
             self._flops[stmt.op] = self._flops.get(stmt.op, 0)+1
         elif type(stmt) is c_ast.UnaryOp:
             self._p_sources(stmt.expr)
-            self._flops[stmt.op] = self._flops.get(stmt.op[-1], 0)+1
+            # prefix and postfix ++ and -- are counted as + and -
+            op = stmt.op[-1]
+            self._flops[op] = self._flops.get(op, 0)+1
+            if stmt.op != '-':
+                # ++ and -- also write to their operand
+                assert type(stmt.expr) in [c_ast.ArrayRef, c_ast.ID], \
+                    "Only array elements or variables can be incremented or decremented."
+                self.destinations.setdefault(self._get_basename(stmt.expr), set())
+                self.destinations[self._get_basename(stmt.expr)].add(self._get_offsets(stmt.expr))
 
         return sources
 
-- 
2.43.0


From 9142a46a1745e5ca091ea29548e5f73402e57993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 33/48] fix: order of accesses within an iteration depended on
 hash randomization

---
 kerncraft/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 1b22d6c..5ae28e1 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -591,7 +591,7 @@ class Kernel(object):
         # Gather all read and write accesses to the array:
         for var_name, var_size in var_sizes.items():
             element_size = self.datatypes_size[self.variables[var_name][0]]
-            for r in self.sources.get(var_name, []):
+            for r in sorted(self.sources.get(var_name, []), key=str):
                 offset_expr = self.access_to_sympy(var_name, r)
                 # Ignore accesses that always go to the same location (constant offsets)
                 if not any([s in base_loop_counters.keys() for s in offset_expr.free_symbols]):
@@ -604,7 +604,7 @@ class Kernel(object):
                     'numpy'))
                 # TODO possibly differentiate between index order
                 global_load_offsets.append(offset)
-            for w in self.destinations.get(var_name, []):
+            for w in sorted(self.destinations.get(var_name, []), key=str):
                 offset_expr = self.access_to_sympy(var_name, w)
                 # Ignore accesses that always go to the same location (constant offsets)
                 if not any([s in base_loop_counters.keys() for s in offset_expr.free_symbols]):
-- 
2.43.0


From 007836cc22a552b53fde944489a0d542193a6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 34/48] fix: kernel reports listed accesses and regions in
 random order

---
 kerncraft/kernel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 5ae28e1..4a129d6 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -677,7 +677,7 @@ class Kernel(object):
                  '---------+------------...\n')
         for name, offsets in list(self.sources.items()):
             prefix = '{:>8} | '.format(name)
-            right_side = '\n'.join(['{!r:}'.format(o) for o in offsets])
+            right_side = '\n'.join(['{!r:}'.format(o) for o in sorted(offsets, key=str)])
             table += prefix_indent(prefix, right_side, later_prefix='         | ')
         print(prefix_indent('data sources:      ', table), file=output_file)
 
@@ -685,7 +685,7 @@ class Kernel(object):
                  '---------+------------...\n')
         for name, offsets in list(self.destinations.items()):
             prefix = '{:>8} | '.format(name)
-            right_side = '\n'.join(['{!r:}'.format(o) for o in offsets])
+            right_side = '\n'.join(['{!r:}'.format(o) for o in sorted(offsets, key=str)])
             table += prefix_indent(prefix, right_side, later_prefix='         | ')
         print(prefix_indent('data destinations: ', table), file=output_file)
 
@@ -1990,7 +1990,7 @@ class BinaryDescription(Kernel):
         assert len(set(datatypes)) <= 1, 'mixing of datatypes within a kernel is not supported.'
 
         # check if all values are specified for all regions
-        for region in self.regions:
+        for region in sorted(self.regions):
             # use ''-values as default for not specified regions
             try:
                 if not region in self.loops:
@@ -2017,14 +2017,14 @@ class BinaryDescription(Kernel):
         for name, variable in self.define.items():
             # if variable is marked adjustable but does not specify a region, assume it holds for all regions
             if variable['adjustable'] and variable['region'] == ['']:
-                variable['region'] +=  list(self.regions)
+                variable['region'] +=  sorted(self.regions)
 
 
     def print_kernel_info(self, output_file=sys.stdout):
         """Print kernel information in human readable format."""
         table = ('  region |        min        max       step\n' +
                  '---------+---------------------------------\n')
-        for region in self.regions:
+        for region in sorted(self.regions):
             table += '{:>8} |                                 \n'.format(region)
 
             for l in self.loops[region]:
-- 
2.43.0


From b6e9d9e81bcd41a795980d446087db7636243688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 35/48] fix: choice among index registers with equal increments
 was random

---
 kerncraft/incore_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 80ed27e..80739e5 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -205,7 +205,7 @@ class x86(ISA):
         possible_idx_regs = None
         if mem_references:
             # we found memory references to work with
-            possible_idx_regs = list(
+            possible_idx_regs = sorted(
                 set(increments.keys()).intersection(
                     set(
                         [mref.base.name for mref in mem_references if mref.base is not None]
-- 
2.43.0


From 914a22c2d468f5e356f73a1ef19502598984d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 36/48] fix: symbol standing for all others in distances and
 dimensions was random

---
 kerncraft/cacheprediction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 54b2d0b..9d933b3 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -53,7 +53,7 @@ def sympy_expr_abs_distance_key(e):
 
     # Expressions, replace all free_symbols with one
     first_s = None
-    for i, s in enumerate(e.free_symbols):
+    for i, s in enumerate(sorted(e.free_symbols, key=str)):
         # Skip and remember first symbol
         if i == 0:
             first_s = s
@@ -114,7 +114,7 @@ def dimension_from_factor(dimension_factor):
     if not dimension_factor.free_symbols:
         raise ValueError("dimension_factor is neither a number, a symbol nor an expression based "
                          "on symbols.")
-    free_symbols = list(dimension_factor.free_symbols)
+    free_symbols = sorted(dimension_factor.free_symbols, key=str)
     for s in free_symbols[1:]:
         dimension_factor = dimension_factor.subs(s, free_symbols[0])
     if isinstance(dimension_factor, sympy.Pow):
-- 
2.43.0


From c282b17788d27ea06c6b324853a8708d09be46b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 37/48] fix: verbose reports ordered entries by memory
 addresses

---
 kerncraft/models/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index cecb3ff..644f886 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -26,8 +26,8 @@ class sympy_safe_key:
         self.obj = obj
 
     def __lt__(self, other):
-        return ((str(type(self.obj)), id(self.obj)) < \
-                (str(type(other.obj)), id(other.obj)))
+        return ((str(type(self.obj)), str(self.obj)) < \
+                (str(type(other.obj)), str(other.obj)))
 
 @contextlib.contextmanager
 def pprint_nosort():
-- 
2.43.0


From e8e660678773cdea1816382c6c0e6a26af5b6372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 38/48] fix: standalone benchmark reported regions in random
 order

---
 kerncraft/models/standalone_benchmark.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 1180d9c..4acda49 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -271,7 +271,7 @@ class StandaloneBenchmark(PerformanceModel):
 
             else:
                 # check if specified region(s) are found in results
-                for region in self.kernel.regions:
+                for region in sorted(self.kernel.regions):
                     if not region in results.keys():
                         print("Region '{}' was not found in the likwid output.".format(region),
                               file=output_file)
@@ -295,7 +295,7 @@ class StandaloneBenchmark(PerformanceModel):
 
         # repetitions were obtained from likwid marker and time per repetition is too small
         # -> overhead introduced by likwid markers is not negligible
-        for region in self.kernel.regions:
+        for region in sorted(self.kernel.regions):
             if self.kernel.repetitions[region]['marker']:
                 # repetitions were obtained from likwid markers
                 if time_per_repetition[region] < 1.0:
@@ -307,7 +307,7 @@ class StandaloneBenchmark(PerformanceModel):
 
         if self.benchmarked_regions - self.kernel.regions:
             print('WARNING: following likwid regions were found but not specified to be analysed:\n'
-                  '{}'.format(self.benchmarked_regions - self.kernel.regions))
+                  '{}'.format(sorted(self.benchmarked_regions - self.kernel.regions)))
 
         # Base metrics for further metric computations:
 
@@ -345,7 +345,7 @@ class StandaloneBenchmark(PerformanceModel):
 
 
         # start analysing for each region
-        for region in self.kernel.regions:
+        for region in sorted(self.kernel.regions):
 
             raw_results = [r[region] for r in raw_results_collection]
 
@@ -448,7 +448,7 @@ class StandaloneBenchmark(PerformanceModel):
     def report(self, output_file=sys.stdout):
         """Report gathered analysis data in human readable form."""
 
-        for region in self.kernel.regions:
+        for region in sorted(self.kernel.regions):
 
             print('\nResults for region \'{}\'\n'.format(region), file=output_file)
 
-- 
2.43.0


From 0d437890a83d3a03fd3d57dc07cf5100102b9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 39/48] fix: layer conditions with equally large tails were
 listed in random order

---
 kerncraft/cacheprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 9d933b3..5f61487 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -430,7 +430,7 @@ class LayerConditionPredictor(CachePredictor):
             })
 
             for tail in sorted(set([d.simplify().expand() for d in distances_bytes]), reverse=True,
-                               key=sympy_expr_abs_distance_key):
+                               key=lambda d: (sympy_expr_abs_distance_key(d), str(d))):
                 # Assuming decreasing order of tails
                 # Ignoring infinity tail:
                 if tail is sympy.oo:
-- 
2.43.0


From 5a01ff64e056d35db246682846a457e24375b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 40/48] fix: order of symbolic accesses depended on hash
 randomization

---
 kerncraft/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 4a129d6..283e2a2 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -440,12 +440,12 @@ class Kernel(object):
         # Compile sympy accesses
         for var_name in self.variables:
             if sources:
-                for r in self.sources.get(var_name, []):
+                for r in sorted(self.sources.get(var_name, []), key=str):
                     if r is None:
                         continue
                     sympy_accesses[var_name].append(self.access_to_sympy(var_name, r))
             if destinations:
-                for w in self.destinations.get(var_name, []):
+                for w in sorted(self.destinations.get(var_name, []), key=str):
                     if w is None:
                         continue
                     sympy_accesses[var_name].append(self.access_to_sympy(var_name, w))
-- 
2.43.0


From c70328a25c9e6d5a0d06a08da96bfa06ab049642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 41/48] fix: schedule of measured events was random

---
 kerncraft/machinemodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 0b63641..aae0c38 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -609,7 +609,8 @@ class MachineModel(object):
             if s.name in temp_pc_names:
                 s.name = temp_pc_names[str(s)]
 
-        events = {s: MachineModel.parse_perfctr_event(s.name) for s in expr.free_symbols
+        events = {s: MachineModel.parse_perfctr_event(s.name)
+                  for s in sorted(expr.free_symbols, key=str)
                   if s.name in perfcounters}
 
         return expr, events
-- 
2.43.0


From 6b8bd2779312ba57dfd53fb994ff201c1f4aa0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 42/48] fix: machine files of the same name do not share
 intermediates

---
 kerncraft/machinemodel.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index aae0c38..6b6b35b 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -405,11 +405,15 @@ class MachineModel(object):
         )
 
     def get_identifier(self):
-        """Return identifier which is either the machine file name or sha256 checksum of data."""
+        """
+        Return identifier of the data, which is its sha256 checksum.
+
+        If loaded from a machine file, its name is prepended.
+        """
+        identifier = hashlib.sha256(repr(self._data).encode()).hexdigest()
         if self._path:
-            return os.path.basename(self._path)
-        else:
-            return hashlib.sha256(repr(self._data).encode()).hexdigest()
+            identifier = os.path.basename(self._path) + '-' + identifier
+        return identifier
 
     def get_last_modified_datetime(self):
         """Return datetime object of modified time of machine file. Return now if not a file."""
-- 
2.43.0


From 03d1f5bf2ebcf550a60ce0bcaab786d15cf2deef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 43/48] fix: compiler flags that differ in slashes do not share
 intermediates

---
 kerncraft/kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 283e2a2..7b6df4a 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -769,7 +769,7 @@ class KernelCode(Kernel):
         :param name: filename to use for caching
         :param machine_and_compiler_dependent: set to False if file content does not depend on
                                                machine file or compiler settings
-        :param other_dependencies: list of strings to use in path. slashes are stripped
+        :param other_dependencies: list of strings to use in path. slashes are quoted
         """
         if self._filename:
             base_name = os.path.join(os.path.dirname(self._filename),
@@ -783,12 +783,12 @@ class KernelCode(Kernel):
 
         if machine_and_compiler_dependent:
             compiler, compiler_args = self._machine.get_compiler()
-            compiler_args = '_'.join(compiler_args).replace('/', '')
+            compiler_args = '_'.join(compiler_args).replace('/', '%2F')
             base_name += '/{}/{}/{}/'.format(
                 self._machine.get_identifier(), compiler, compiler_args)
         
         for i in other_dependencies:
-            base_name = os.path.join(base_name, str(i).replace('/', ''))
+            base_name = os.path.join(base_name, str(i).replace('/', '%2F'))
 
         # Create dirs recursively
         os.makedirs(base_name, exist_ok=True)
-- 
2.43.0


From 2d69b0616719410fca388697fb44042333f7ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 44/48] fix: main code did not find kernel.h and read it
 without holding its lock

---
 kerncraft/kernel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 7b6df4a..cf678ac 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1545,9 +1545,10 @@ class KernelCode(Kernel):
         assert self.kernel_ast is not None, "AST does not exist, this could be due to running " \
                                             "based on a kernel description rather than code."
 
+        # must reside in the same directory as kernel.h, which it includes
         file_path = self.get_intermediate_location(
-            'main.c', machine_and_compiler_dependent=False,
-            other_dependencies=[self._machine.get_identifier()])
+            'main-{}.c'.format(self._machine.get_identifier()),
+            machine_and_compiler_dependent=False)
         lock_mode, lock_fp = self.lock_intermediate(file_path)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1825,6 +1826,8 @@ class KernelCode(Kernel):
             main_filename, main_lock_fp = self.get_main_code()
             kernel_obj_filename, kernel_obj_lock_fp = self.compile_kernel(
                 openmp=openmp, verbose=verbose)
+            # included by main code
+            header_filename, header_lock_fp = self.get_kernel_header()
 
             infiles = [reduce_path(os.path.abspath(os.path.dirname(
                 os.path.realpath(__file__)))+'/headers/dummy.c'),
@@ -1839,6 +1842,7 @@ class KernelCode(Kernel):
                 subprocess.check_output(cmd)
                 main_lock_fp.close()
                 kernel_obj_lock_fp.close()
+                header_lock_fp.close()
                 self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
             except subprocess.CalledProcessError as e:
                 print("Build failed:", e, file=sys.stderr)
-- 
2.43.0


From d8226a418809c3ca6e04d0a037a7393411df1047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 45/48] fix: machine updates share no data with remembered
 readouts

---
 kerncraft/machinemodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 6b6b35b..4abbb90 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -192,10 +192,10 @@ class MachineModel(object):
         # cache simulator was built from the old description
         self._cachesimulator_cores = None
         if readouts:
-            self._data.update(get_machine_readouts(cpuinfo_path=cpuinfo_path))
+            self._data.update(deepcopy(get_machine_readouts(cpuinfo_path=cpuinfo_path)))
         if memory_hierarchy:
-            self._data.update(get_memory_hierarchy(placeholders=overwrite,
-                                                   cpuinfo_path=cpuinfo_path))
+            self._data.update(deepcopy(get_memory_hierarchy(placeholders=overwrite,
+                                                            cpuinfo_path=cpuinfo_path)))
 
         if benchmarks:
             self._update_benchmarks()
-- 
2.43.0


From 857adbc8f982fc32266f53b0370fb6b512d208c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 46/48] fix: refuse range descriptions with trailing characters

The description given with -D was only matched from its beginning, so that
-D N 1e3 was silently analysed as N=1.
---
 kerncraft/kerncraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 683d90a..7a79856 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -103,7 +103,7 @@ class AppendStringRange(argparse.Action):
             message = 'requires 2 arguments'
         else:
             m = re.match(r'(?P<start>\d+)(?:-(?P<stop>\d+)(?::(?P<num>\d+)'
-                         r'(:?(?P<log>log)(:?(?P<base>\d+))?)?)?)?',
+                         r'(:?(?P<log>log)(:?(?P<base>\d+))?)?)?)?$',
                          values[1])
             if m:
                 gd = m.groupdict()
-- 
2.43.0


From c4d1c2ed2a17c972728349804d0b31e0974dc988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 47/48] fix: do not add constants to the default shared by
 parser runs

parse_args of one parser returned the constants given to all earlier calls,
because the action appended to the default value of the option.
---
 kerncraft/kerncraft.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 7a79856..dbd7cf9 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -122,10 +122,8 @@ class AppendStringRange(argparse.Action):
         if message:
             raise argparse.ArgumentError(self, message)
 
-        if hasattr(namespace, self.dest):
-            getattr(namespace, self.dest).append(values)
-        else:
-            setattr(namespace, self.dest, [values])
+        # copy, because the list in namespace may be the default shared by all parser runs
+        setattr(namespace, self.dest, list(getattr(namespace, self.dest, None) or []) + [values])
 
 
 class VersionAction(argparse.Action):
-- 
2.43.0


From dba26c6882cfd3f3a94318af20970081b68c587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 48/48] fix: error out if LLVM-MCA prints no timeline, instead
 of recording a latency of -inf

---
 kerncraft/incore_model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 80739e5..863bf28 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -856,12 +856,11 @@ def llvm_mca_analyse_instrumented_assembly(
     # Extract critical path latency
     # find cycle distance between first D and last R in first iteration
     timeline_lines = [l for l in output.split("\n") if re.match(r"\[[0-9]+,[0-9]+\]", l)]
-    cp_start = float("inf")
-    cp_end = 0
-    for l in timeline_lines:
-        if l.startswith("[0,"):
-            cp_start = min(l.index("D"), cp_start)
-            cp_end = max(l.index("R"), cp_end)
+    first_iteration = [l for l in timeline_lines if l.startswith("[0,")]
+    if not first_iteration:
+        raise ValueError("Could not find timeline of first iteration in LLVM-MCA output.")
+    cp_start = min([l.index("D") for l in first_iteration])
+    cp_end = max([l.index("R") for l in first_iteration])
     result["cp_latency"] = cp_end - cp_start
 
     # Extract uops
-- 
2.43.0

