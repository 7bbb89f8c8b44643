From 09ea90884c39746d1a6175d2effc6fa7ca1b3ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 01/22] fix: reject zero as a generator when building the
 element table

Without a tabulated Conway polynomial (primes above 65536) the search for a
generator draws random elements, and zero was accepted: the table then
consisted of a one and zeros only (e.g. p=66463, p=110059).
---
 src/fq_element_table.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fq_element_table.cc b/src/fq_element_table.cc
index 454b4db..ae28edb 100644
--- a/src/fq_element_table.cc
+++ b/src/fq_element_table.cc
@@ -63,6 +63,7 @@ FqElementTable(
     is_gen = true;
 
     this->fq_elements.clear();
+    fq_nmod_one(a, this->fq_ctx);
 
     auto b = new fq_nmod_struct;
     fq_nmod_init(b, this->fq_ctx);
@@ -73,7 +74,8 @@ FqElementTable(
     fq_nmod_mul(a, a, gen, this->fq_ctx);
 
     for (size_t ix=1; ix<this->prime_power_pred; ++ix) {
-      if ( fq_nmod_equal(a, this->fq_elements.front(), this->fq_ctx) ) {
+      if (    fq_nmod_is_zero(a, this->fq_ctx)
+           || fq_nmod_equal(a, this->fq_elements.front(), this->fq_ctx) ) {
         is_gen = false;
         for ( auto fq : this->fq_elements ) {
           fq_nmod_clear(fq, this->fq_ctx);
-- 
2.43.0


From 6febb80e2240257d3915a9b306cc6ed05fa5bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 02/22] fix: copy the counter of Count::ValueType

The implicit copies shared one fmpz_t between two objects. Counts of 2^62 and
above, which are not stored inline, were aliased and then freed twice, so that
sums of large counts came out wrong.
---
 src/store/store_data.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/store/store_data.hh b/src/store/store_data.hh
index c65ab54..9f07a77 100644
--- a/src/store/store_data.hh
+++ b/src/store/store_data.hh
@@ -69,6 +69,17 @@ class Count
         fmpz_init(this->counter);
       };
 
+      ValueType(const ValueType & value)
+      {
+        fmpz_init_set(this->counter, value.counter);
+      };
+
+      ValueType & operator=(const ValueType & value)
+      {
+        fmpz_set(this->counter, value.counter);
+        return *this;
+      };
+
       ValueType(unsigned int counter)
       {
         fmpz_init(this->counter);
-- 
2.43.0


From aff37db6a284904bf682faeb89cb5466032309ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 03/22] fix: stop reading a record at its last line

The end of a record was only noticed after one more read, which inserted an
empty block into every non-empty record; merged records then contained an
empty line. A record that could not be opened was read forever.
---
 src/store/file_store.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1bb4d4c..b90309f 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -123,10 +123,10 @@ extract(
 {
   vuu_block block;
 
-  stream.peek();
-  while ( !stream.eof() ) {
+  while ( true ) {
     block.clear();
-    FileStore::extract(stream, block);
+    if ( !FileStore::extract(stream, block) )
+      break;
     record.insert(block);
   }
 }
-- 
2.43.0


From b014aad9eccbb976e3068b80f02693b5acfcc5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 04/22] fix: default to no marked point when a configuration
 omits it

---
 src/config/config_node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index ff4f0e9..8273ced 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -92,7 +92,10 @@ namespace YAML
     config.prime_exponent = node["PrimeExponent"].as<int>();
   
     config.genus = node["Genus"].as<int>();
-    config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    if ( node["WithMarkedPoint"] )
+      config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    else
+      config.with_marked_point = false;
 
     if ( node["CountExponent"] )
       config.count_exponent = node["CountExponent"].as<int>();
-- 
2.43.0


From 6e64423f0c7b9b3617c28ef531d85eb2dd80e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 05/22] fix: reduce the coefficients of a single curve modulo
 the prime

---
 src/single_curve_fp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/single_curve_fp.cc b/src/single_curve_fp.cc
index 54fd531..39083cd 100644
--- a/src/single_curve_fp.cc
+++ b/src/single_curve_fp.cc
@@ -54,7 +54,7 @@ single_curve_fp(
 
   vector<unsigned int> poly_coeff_exponents;
   for ( auto c : poly_coeffs )
-    poly_coeff_exponents.push_back(fp_conversion_map[c]);
+    poly_coeff_exponents.push_back(fp_conversion_map[c % prime]);
 
   shared_ptr<OpenCLInterface> opencl;
   if (  implementation == SingleCurveCountImplementationCPU
-- 
2.43.0


From c760f3f484305b306a8b705829d9cb038e8f20e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 06/22] fix: avoid overflow when listing generator powers for a
 single curve

---
 src/single_curve_fp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/single_curve_fp.cc b/src/single_curve_fp.cc
index 39083cd..283ec0a 100644
--- a/src/single_curve_fp.cc
+++ b/src/single_curve_fp.cc
@@ -49,7 +49,7 @@ single_curve_fp(
   fp_conversion_map[0] = prime-1;
   for (unsigned int ex=0; ex<prime-1; ++ex) {
     fp_conversion_map[a] = ex;
-    a = (a*gen) % prime;
+    a = ((unsigned long)a*gen) % prime;
   }
 
   vector<unsigned int> poly_coeff_exponents;
-- 
2.43.0


From ef0a35516318050c16a0c531dae6a5ac22eeed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:59 +0000
Subject: [PATCH 07/22] fix: do not lose wake-ups of worker threads

---
 src/threaded/thread.cc | 37 ++++++++++++++-----------------------
 src/threaded/thread.hh |  1 -
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/threaded/thread.cc b/src/threaded/thread.cc
index 2431679..9497c6c 100644
--- a/src/threaded/thread.cc
+++ b/src/threaded/thread.cc
@@ -54,34 +54,25 @@ main_thread(
     const shared_ptr<StoreFactoryInterface> store_factory
     )
 {
-  unique_lock<mutex> main_lock(thread->main_mutex);
-
   while ( true ) {
-    while ( true ) {
-      thread->data_mutex.lock();
-      bool shutting_down = thread->shutting_down;
-      bool blocks_empty = thread->blocks.empty();
-      thread->data_mutex.unlock();
-
-      if ( shutting_down )
-        return;
-
-      if ( blocks_empty )
-        thread->main_cond_var.wait(main_lock);
-      else
-        break;
-    }
-
-
     vuu_block block;
     shared_ptr<FqElementTable> fq_table;
     vector<shared_ptr<ReductionTable>> reduction_tables;
 
-    thread->data_mutex.lock();
-    tie(block, fq_table, reduction_tables) =
-      thread->blocks.front();
-    thread->blocks.pop_front();
-    thread->data_mutex.unlock();
+    {
+      // the condition has to be checked and waited for under the mutex that
+      // protects it; otherwise notifications in between are lost
+      unique_lock<mutex> data_lock(thread->data_mutex);
+      thread->main_cond_var.wait( data_lock,
+          [&thread] { return thread->shutting_down || !thread->blocks.empty(); } );
+
+      if ( thread->shutting_down )
+        return;
+
+      tie(block, fq_table, reduction_tables) =
+        thread->blocks.front();
+      thread->blocks.pop_front();
+    }
 
     auto store = store_factory->create();
     for ( BlockIterator iter(block); !iter.is_end(); iter.step() ) {
diff --git a/src/threaded/thread.hh b/src/threaded/thread.hh
index 8f43297..79c63c7 100644
--- a/src/threaded/thread.hh
+++ b/src/threaded/thread.hh
@@ -81,7 +81,6 @@ class Thread :
     thread main_std_thread;
     bool shutting_down;
 
-    mutex main_mutex;
     mutex data_mutex;
     condition_variable main_cond_var;
 
-- 
2.43.0


From 3ef4baeabc273842586ec1b0e8b68b55a0b880ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 08/22] fix: publish a record only once record and store are
 complete

---
 src/executables/merger.cc |  9 ++++++---
 src/store/file_store.cc   | 32 +++++++++++++++++++++++++++++---
 src/store/file_store.hh   |  9 +++++++++
 3 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/executables/merger.cc b/src/executables/merger.cc
index f941620..031ef39 100644
--- a/src/executables/merger.cc
+++ b/src/executables/merger.cc
@@ -25,6 +25,7 @@
 #include <boost/program_options.hpp>
 #include <fstream>
 #include <iostream>
+#include <sstream>
 #include <vector>
 
 #include "store/curve_data.hh"
@@ -156,9 +157,11 @@ merge(
     store.extract( fstream(store_file.native(), ios_base::in) );
   }
 
-  // save record second as a witness to successful writing
-  store.insert( fstream(store_output_file.native(), ios_base::out) );
-  FileStore::insert( fstream(record_output_file.native(), ios_base::out), record );
+  stringstream record_ss, store_ss;
+  FileStore::insert( record_ss, record );
+  store.insert( store_ss );
+  FileStore::write( make_tuple(record_ss.str(), store_ss.str()),
+                    record_output_file, store_output_file );
 
   return 0;
 }
diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index b90309f..d17653c 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -68,9 +68,35 @@ save(
   path path_record, path_store;
   tie(path_record, path_store) = this->new_filenames();
 
-  // save record second as a witness to successful writing
-  fstream(path_store.native(),  ios_base::out) << get<1>(record_store);
-  fstream(path_record.native(), ios_base::out) << get<0>(record_store);
+  FileStore::write(record_store, path_record, path_store);
+}
+
+void
+FileStore::
+write(
+    const tuple<string, string> & record_store,
+    const path & path_record,
+    const path & path_store
+    )
+{
+  path path_record_tmp(path_record), path_store_tmp(path_store);
+  path_record_tmp += ".tmp";
+  path_store_tmp += ".tmp";
+
+  ofstream store_stream(path_store_tmp.native());
+  store_stream << get<1>(record_store);
+  store_stream.close();
+
+  ofstream record_stream(path_record_tmp.native());
+  record_stream << get<0>(record_store);
+  record_stream.close();
+
+  // the record is a witness to successful writing; it appears second and
+  // only once both files are complete
+  boost::system::error_code error;
+  filesys::remove(path_record, error);
+  filesys::rename(path_store_tmp, path_store, error);
+  filesys::rename(path_record_tmp, path_record, error);
 }
 
 tuple<path, path>
diff --git a/src/store/file_store.hh b/src/store/file_store.hh
index 035bb2c..0821ccf 100644
--- a/src/store/file_store.hh
+++ b/src/store/file_store.hh
@@ -57,6 +57,15 @@ class FileStore
     }
 
     void save( tuple<string, string> record_store );
+
+    static
+    void
+    write(
+        const tuple<string, string> & record_store,
+        const path & path_record,
+        const path & path_store
+        );
+
     tuple<path, path> new_filenames();
 
     inline
-- 
2.43.0


From 2bf377d4d942ceabd3e027cfe8124578bb0adcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:37 +0000
Subject: [PATCH 09/22] fix: report result files that cannot be read or written

---
 src/executables/merger.cc | 20 ++++++++++++++++----
 src/store/file_store.cc   | 28 ++++++++++++++++++++++------
 src/store/file_store.hh   |  2 +-
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/executables/merger.cc b/src/executables/merger.cc
index 031ef39..76bbd25 100644
--- a/src/executables/merger.cc
+++ b/src/executables/merger.cc
@@ -153,15 +153,27 @@ merge(
       return 1;
     }
 
-    FileStore::extract( fstream(record_file.native(), ios_base::in), record );
-    store.extract( fstream(store_file.native(), ios_base::in) );
+    fstream record_stream(record_file.native(), ios_base::in);
+    fstream store_stream(store_file.native(), ios_base::in);
+    FileStore::extract( record_stream, record );
+    store.extract( store_stream );
+    if (    !record_stream.is_open() || record_stream.bad()
+         || !store_stream.is_open() || store_stream.bad() ) {
+      cerr << "could not read " << record_file.filename()
+           << " or the corresponding store file" << endl;
+      return 1;
+    }
   }
 
   stringstream record_ss, store_ss;
   FileStore::insert( record_ss, record );
   store.insert( store_ss );
-  FileStore::write( make_tuple(record_ss.str(), store_ss.str()),
-                    record_output_file, store_output_file );
+  if ( !FileStore::write( make_tuple(record_ss.str(), store_ss.str()),
+                          record_output_file, store_output_file ) ) {
+    cerr << "could not write " << record_output_file
+         << " and " << store_output_file << endl;
+    return 1;
+  }
 
   return 0;
 }
diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index d17653c..8775516 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -52,7 +52,12 @@ FileStore(
          || filepath.extension() != FileStore::record_extension )
       continue;
     
-    this->extract(fstream(filepath.native(), ios_base::in) , this->initial_record);
+    fstream record_stream(filepath.native(), ios_base::in);
+    this->extract(record_stream, this->initial_record);
+    if ( !record_stream.is_open() || record_stream.bad() ) {
+      cerr << "FileStore::FileStore: could not read " << filepath << endl;
+      throw;
+    }
   }
 }
 
@@ -68,10 +73,14 @@ save(
   path path_record, path_store;
   tie(path_record, path_store) = this->new_filenames();
 
-  FileStore::write(record_store, path_record, path_store);
+  if ( !FileStore::write(record_store, path_record, path_store) ) {
+    cerr << "FileStore::save: could not write "
+         << path_record << " and " << path_store << endl;
+    throw;
+  }
 }
 
-void
+bool
 FileStore::
 write(
     const tuple<string, string> & record_store,
@@ -94,9 +103,16 @@ write(
   // the record is a witness to successful writing; it appears second and
   // only once both files are complete
   boost::system::error_code error;
-  filesys::remove(path_record, error);
-  filesys::rename(path_store_tmp, path_store, error);
-  filesys::rename(path_record_tmp, path_record, error);
+  if ( store_stream && record_stream ) {
+    filesys::remove(path_record, error);
+    if ( !error ) filesys::rename(path_store_tmp, path_store, error);
+    if ( !error ) filesys::rename(path_record_tmp, path_record, error);
+    if ( !error ) return true;
+  }
+
+  filesys::remove(path_record_tmp, error);
+  filesys::remove(path_store_tmp, error);
+  return false;
 }
 
 tuple<path, path>
diff --git a/src/store/file_store.hh b/src/store/file_store.hh
index 0821ccf..93efa4f 100644
--- a/src/store/file_store.hh
+++ b/src/store/file_store.hh
@@ -59,7 +59,7 @@ class FileStore
     void save( tuple<string, string> record_store );
 
     static
-    void
+    bool
     write(
         const tuple<string, string> & record_store,
         const path & path_record,
-- 
2.43.0


From bcd1a90bcad709cea90d398b732d47a55fbbad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:29 +0000
Subject: [PATCH 10/22] fix: let all processes end when the MPI program cannot
 start

---
 src/executables/mpi.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/executables/mpi.cc b/src/executables/mpi.cc
index 437f77b..d43d931 100644
--- a/src/executables/mpi.cc
+++ b/src/executables/mpi.cc
@@ -53,8 +53,7 @@ main(
   mpi::environment mpi_environment(argc, argv, mpi::threading::funneled);
   auto mpi_world = make_shared<mpi::communicator>();
 
-  if ( mpi_world->rank() != 0 )
-    return main_mpi_worker(mpi_world);
+  const bool is_master = mpi_world->rank() == 0;
 
 
   popt::options_description visible_options("Available options"), all_options;
@@ -83,33 +82,43 @@ main(
   popt::notify(options_map);
 
 
+  // all processes see the same options, so that they leave together
   if ( options_map.count("help") ) {
-    cerr << visible_options;
+    if ( is_master )
+      cerr << visible_options;
     return 0;
   }
 
   if ( !options_map.count("config-file") ) {
-    cerr << "configuration file required" << endl;
+    if ( is_master )
+      cerr << "configuration file required" << endl;
     return 1;
   }
 
   if ( !options_map.count("output-path") ) {
-    cerr << "output path required" << endl;
+    if ( is_master )
+      cerr << "output path required" << endl;
     return 1;
   }
 
+  if ( !is_master )
+    return main_mpi_worker(mpi_world);
+
+
+  // from here on the other processes wait for the worker pool of this one,
+  // so that we have to abort them if we cannot create it
 
   path output_path(options_map["output-path"].as<string>());
   if ( !( is_directory(output_path) || create_directories(output_path) ) ) {
     cerr << "could not create output path" << endl;
-    return 1;
+    mpi_environment.abort(1);
   }
 
 
   path config_file(options_map["config-file"].as<string>());
   if ( !is_regular_file(config_file) ) {
     cerr << "could not find configuration file or it is not a regular file" << endl;
-    return 1;
+    mpi_environment.abort(1);
   }
   auto config_yaml = YAML::LoadFile(config_file.native());
 
@@ -123,7 +132,7 @@ main(
       store_type = StoreType::EC;
     else {
       cerr << "Invalid store type given" << endl;
-      return 1;
+      mpi_environment.abort(1);
     }
   }
 
-- 
2.43.0


From 821274bd04f0f1cbf52254d9078cd199f7efc5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 11/22] fix: let the OpenCL host code compile against the types
 of Curve

---
 src/opencl/kernel_evaluation.cc | 2 +-
 src/opencl/kernel_evaluation.hh | 2 +-
 src/opencl/kernel_reduction.cc  | 2 +-
 src/opencl/kernel_reduction.hh  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opencl/kernel_evaluation.cc b/src/opencl/kernel_evaluation.cc
index 88050c0..1524b44 100644
--- a/src/opencl/kernel_evaluation.cc
+++ b/src/opencl/kernel_evaluation.cc
@@ -85,7 +85,7 @@ OpenCLKernelEvaluation(
 void
 OpenCLKernelEvaluation::
 enqueue(
-    vector<int> poly_coeff_exponents
+    const vector<unsigned int> & poly_coeff_exponents
     )
 {
   cl_int status;
diff --git a/src/opencl/kernel_evaluation.hh b/src/opencl/kernel_evaluation.hh
index 6b88f14..edf37eb 100644
--- a/src/opencl/kernel_evaluation.hh
+++ b/src/opencl/kernel_evaluation.hh
@@ -40,7 +40,7 @@ class OpenCLKernelEvaluation
   public:
     OpenCLKernelEvaluation(const ReductionTable & table, unsigned int degree);
 
-    void enqueue(vector<int> poly_coeff_exponents);
+    void enqueue(const vector<unsigned int> & poly_coeff_exponents);
 
   private:
     unsigned int prime_power_pred;
diff --git a/src/opencl/kernel_reduction.cc b/src/opencl/kernel_reduction.cc
index 17a8106..1e35f5d 100644
--- a/src/opencl/kernel_reduction.cc
+++ b/src/opencl/kernel_reduction.cc
@@ -130,7 +130,7 @@ _reduce(
 void
 OpenCLKernelReduction::
 reduce(
-    map<unsigned int, tuple<int,int>> & nmb_points
+    map<unsigned int, tuple<unsigned int,unsigned int>> & nmb_points
     )
 {
   get<0>(nmb_points[this->prime_exponent]) +=
diff --git a/src/opencl/kernel_reduction.hh b/src/opencl/kernel_reduction.hh
index 8507c8d..841e746 100644
--- a/src/opencl/kernel_reduction.hh
+++ b/src/opencl/kernel_reduction.hh
@@ -44,7 +44,7 @@ class OpenCLKernelReduction
   public:
     OpenCLKernelReduction(const ReductionTable & table);
 
-    void reduce(map<unsigned int, tuple<int,int>> & nmb_points);
+    void reduce(map<unsigned int, tuple<unsigned int,unsigned int>> & nmb_points);
 
   private:
     unsigned int prime_exponent;
-- 
2.43.0


From d0cf6993a69dd183d04e4412c25cf210fc73c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:04 +0000
Subject: [PATCH 12/22] fix: complete writes to OpenCL buffers before their
 source is released

---
 src/opencl/buffer_evaluation.cc | 5 +++--
 src/opencl/kernel_evaluation.cc | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/opencl/buffer_evaluation.cc b/src/opencl/buffer_evaluation.cc
index 4234cfe..21a48cb 100644
--- a/src/opencl/buffer_evaluation.cc
+++ b/src/opencl/buffer_evaluation.cc
@@ -50,7 +50,8 @@ OpenCLBufferEvaluation(
 
   cl_int status;
  
-  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_exponent_reduction_table, CL_FALSE, 0,
+  // the table may be destroyed before the queue is flushed, so that writes have to be blocking
+  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_exponent_reduction_table, CL_TRUE, 0,
       sizeof(int32_t) * table.exponent_reduction_table->size(),
       table.exponent_reduction_table->data() );
   if ( status != CL_SUCCESS ) {
@@ -58,7 +59,7 @@ OpenCLBufferEvaluation(
     throw;
   }
 
-  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_incrementation_table, CL_FALSE, 0,
+  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_incrementation_table, CL_TRUE, 0,
       sizeof(int32_t) * table.incrementation_table->size(),
       table.incrementation_table->data() );
   if ( status != CL_SUCCESS ) {
diff --git a/src/opencl/kernel_evaluation.cc b/src/opencl/kernel_evaluation.cc
index 1524b44..63c11f3 100644
--- a/src/opencl/kernel_evaluation.cc
+++ b/src/opencl/kernel_evaluation.cc
@@ -95,7 +95,8 @@ enqueue(
     throw;
   }
 
-  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_poly_coeff_exponents, CL_FALSE, 0,
+  // the coefficients need not outlive this call, so that the write has to be blocking
+  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_poly_coeff_exponents, CL_TRUE, 0,
                                     sizeof(int) * (degree+1), poly_coeff_exponents.data());
   if ( status != CL_SUCCESS ) {
     cerr << "OpenCLKernelEvaluation::enqueue: could not write poly_coeff_exponents" << endl;
-- 
2.43.0


From 35fbd16563c1eaed2ed558b2190a8aabd61a11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 13/22] fix: set up the OpenCL buffers of a table that takes
 over its device

---
 src/reduction_table.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reduction_table.cc b/src/reduction_table.cc
index e80ebed..bfb93ef 100644
--- a/src/reduction_table.cc
+++ b/src/reduction_table.cc
@@ -52,7 +52,7 @@ ReductionTable(
 {
   this->compute_tables();
 #ifdef WITH_OPENCL
-  if ( opencl ) {
+  if ( this->opencl ) {
     this->_buffer_evaluation = make_shared<OpenCLBufferEvaluation>(*this);
     this->_kernel_reduction = make_shared<OpenCLKernelReduction>(*this);
   }
-- 
2.43.0


From 76c8cbfe7bedddf4f20ddd9fa7878fbf8b6238d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:10 +0000
Subject: [PATCH 14/22] fix: reject configurations whose prime is not an odd
 prime

---
 src/config/config_node.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config/config_node.hh b/src/config/config_node.hh
index 259b753..c602e54 100644
--- a/src/config/config_node.hh
+++ b/src/config/config_node.hh
@@ -25,6 +25,7 @@
 #define _H_CONFIG_NODE
 
 #include <boost/filesystem.hpp>
+#include <flint/ulong_extras.h>
 #include <ostream>
 #include <string>
 #include <yaml-cpp/yaml.h>
@@ -53,7 +54,7 @@ struct ConfigNode
 
   inline bool verify() const
   {
-    return (    prime != 0 && prime_exponent != 0
+    return (    prime != 2 && n_is_prime(prime) && prime_exponent != 0
              && genus != 0 && count_exponent != 0
              && (is_directory(result_path) || create_directories(result_path))
              && package_size != 0
-- 
2.43.0


From 9b17b249d62dbce62eeead2cb9b3195aee37304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:54 +0000
Subject: [PATCH 15/22] fix: reject negative settings instead of reading them
 as huge values

---
 src/config/config_node.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index 8273ced..5ed9fe0 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -88,23 +88,23 @@ namespace YAML
          || !node["PackageSize"] )
       return false;
   
-    config.prime = node["Prime"].as<int>();
-    config.prime_exponent = node["PrimeExponent"].as<int>();
+    config.prime = node["Prime"].as<unsigned int>();
+    config.prime_exponent = node["PrimeExponent"].as<unsigned int>();
   
-    config.genus = node["Genus"].as<int>();
+    config.genus = node["Genus"].as<unsigned int>();
     if ( node["WithMarkedPoint"] )
       config.with_marked_point = node["WithMarkedPoint"].as<bool>();
     else
       config.with_marked_point = false;
 
     if ( node["CountExponent"] )
-      config.count_exponent = node["CountExponent"].as<int>();
+      config.count_exponent = node["CountExponent"].as<unsigned int>();
     else
       config.count_exponent = config.genus;
   
     config.result_path = path(node["ResultPath"].as<string>());
   
-    config.package_size = node["PackageSize"].as<int>();
+    config.package_size = node["PackageSize"].as<unsigned int>();
   
     return true;
   }
-- 
2.43.0


From 5b590831f100c9000279bb152f201ad55f5cbac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:36 +0000
Subject: [PATCH 16/22] fix: release the coefficients of the naive count
 implementations

count_naive_nmod and count_naive_zech initialised an element per
coefficient of the curve on every call and never released them, so that
a long run with these implementations kept growing.
---
 src/curve.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/curve.cc b/src/curve.cc
index 6d64e43..b748bd3 100644
--- a/src/curve.cc
+++ b/src/curve.cc
@@ -337,7 +337,7 @@ count_naive_nmod(
   // convert coefficient exponents to fq_nmod elements
   // fixme: in this conversion as in the other ones, we
   // silently assume that gen_q = gen_{q^l}^{q^l - q}
-  vector<const fq_nmod_struct*> poly_coefficients;
+  vector<fq_nmod_struct*> poly_coefficients;
   for ( unsigned int e : this->poly_coeff_exponents ) {
     auto a = new fq_nmod_struct;
     fq_nmod_init(a, fq_ctx);
@@ -408,6 +408,10 @@ count_naive_nmod(
 
 
   // clear flint variables
+  for ( auto c : poly_coefficients ) {
+    fq_nmod_clear(c, fq_ctx);
+    delete c;
+  }
   fq_nmod_clear(gen, fq_ctx);
   fq_nmod_clear(sub_gen, fq_ctx);
   fq_nmod_clear(x, fq_ctx);
@@ -460,7 +464,7 @@ count_naive_zech(
   // convert coefficient exponents to fq_zech elements
   // fixme: in this conversion as in the other ones, we
   // silently assume that gen_q = gen_{q^l}^{q^l - q}
-  vector<const fq_zech_struct*> poly_coefficients;
+  vector<fq_zech_struct*> poly_coefficients;
   for ( unsigned int e : this->poly_coeff_exponents ) {
     auto a = new fq_zech_struct;
     fq_zech_init(a, fq_ctx);
@@ -531,6 +535,10 @@ count_naive_zech(
 
 
   // clear flint variables
+  for ( auto c : poly_coefficients ) {
+    fq_zech_clear(c, fq_ctx);
+    delete c;
+  }
   fq_zech_clear(gen, fq_ctx);
   fq_zech_clear(sub_gen, fq_ctx);
   fq_zech_clear(x, fq_ctx);
-- 
2.43.0


From 628c7b48adc994baa92aa25845eb4c6dccbb6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:28 +0000
Subject: [PATCH 17/22] fix: hycu-single takes negative coefficients modulo p

Negative coefficients (given after --) and field sizes were converted to
unsigned int, so that -1 was taken for 2^32-1, which is a different
element unless p divides 2^32.
---
 src/executables/single.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/executables/single.cc b/src/executables/single.cc
index 0be6e42..14a42a2 100644
--- a/src/executables/single.cc
+++ b/src/executables/single.cc
@@ -24,6 +24,7 @@
 #include <boost/program_options.hpp>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include "flint/ulong_extras.h"
 
 #include "curve.hh"
@@ -45,9 +46,9 @@ main(
   popt::positional_options_description positional_options;
 
   hidden_options.add_options()
-    ( "coefficients", value<vector<unsigned int>>()->composing(),
+    ( "coefficients", value<vector<long>>()->composing(),
       "coefficients of the polynomial" )
-    ( "field_size", value<unsigned int>(),
+    ( "field_size", value<long>(),
       "size of the ground field" );
 
   positional_options.add("field_size", 1)
@@ -89,7 +90,7 @@ main(
       invalid_options = true;
       cerr << "no coefficient was specified";
     }
-    else if ( options_map["coefficients"].as<vector<unsigned int>>().size() < 2 ) {
+    else if ( options_map["coefficients"].as<vector<long>>().size() < 2 ) {
       invalid_options = true;
       cerr << "less than two coefficient were specified";
     }
@@ -99,11 +100,17 @@ main(
     }
   }
 
-  if ( !n_is_prime(options_map["field_size"].as<unsigned int>()) ) {
+  const long field_size = options_map["field_size"].as<long>();
+  if ( field_size < 2 || field_size > numeric_limits<unsigned int>::max() || !n_is_prime(field_size) ) {
     cerr << "field size is not prime";
     return 1;
   }
 
+  // coefficients may be negative
+  vector<unsigned int> coefficients;
+  for ( long c : options_map["coefficients"].as<vector<long>>() )
+    coefficients.push_back( (c % field_size + field_size) % field_size );
+
   {
     int nmb_implementations = options_map.count("naivenmod") +  options_map.count("naivezech");
 #ifdef WITH_OPENCL
@@ -127,8 +134,8 @@ main(
   else
     count_implementation = SingleCurveCountImplementationCPU;
 
-  auto curve = single_curve_fp( options_map["field_size"].as<unsigned int>(),
-                                options_map["coefficients"].as<vector<unsigned int>>(),
+  auto curve = single_curve_fp( field_size,
+                                coefficients,
                                 count_implementation
                               );
     
-- 
2.43.0


From 16960311f2aad2be6459c029680bfee95a3f7b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:06 +0000
Subject: [PATCH 18/22] fix: start at least one thread

Without CPU threads (-n 0, or an unknown number of cores) and without
devices there was no thread that blocks could be assigned to, so that
the run never ended.
---
 src/threaded/thread_pool.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/threaded/thread_pool.cc b/src/threaded/thread_pool.cc
index a116eb1..36e2413 100644
--- a/src/threaded/thread_pool.cc
+++ b/src/threaded/thread_pool.cc
@@ -62,6 +62,10 @@ spark_threads(
   for ( unsigned int ix=this->threads.size()/8; ix<(unsigned int)nmb_working_threads; ++ix )
     this->threads.push_back(make_shared<Thread>(shared_from_this(), this->store_factory));
 
+  // without any thread, blocks could not be assigned
+  if ( this->threads.empty() )
+    this->threads.push_back(make_shared<Thread>(shared_from_this(), this->store_factory));
+
 
   for ( const auto thread : this->threads ) {
     thread->spark();
-- 
2.43.0


From 1a0c4e502aa9cd1606f3a15a894385e9acfbe8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 19/22] fix: hycu-single refuses constant polynomials and
 characteristic two

For a polynomial that is constant modulo the field size the genus wrapped
around, so that the program tried to allocate an endless list of
extensions; the counts over F_2 have no meaning.
---
 src/executables/single.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/executables/single.cc b/src/executables/single.cc
index 14a42a2..87973c5 100644
--- a/src/executables/single.cc
+++ b/src/executables/single.cc
@@ -21,6 +21,7 @@
 ===============================================================================*/
 
 
+#include <algorithm>
 #include <boost/program_options.hpp>
 #include <fstream>
 #include <iostream>
@@ -101,8 +102,8 @@ main(
   }
 
   const long field_size = options_map["field_size"].as<long>();
-  if ( field_size < 2 || field_size > numeric_limits<unsigned int>::max() || !n_is_prime(field_size) ) {
-    cerr << "field size is not prime";
+  if ( field_size < 3 || field_size > numeric_limits<unsigned int>::max() || !n_is_prime(field_size) ) {
+    cerr << "field size is not an odd prime" << endl;
     return 1;
   }
 
@@ -111,6 +112,11 @@ main(
   for ( long c : options_map["coefficients"].as<vector<long>>() )
     coefficients.push_back( (c % field_size + field_size) % field_size );
 
+  if ( all_of( coefficients.begin() + 1, coefficients.end(), [](unsigned int c) { return c == 0; } ) ) {
+    cerr << "polynomial is constant" << endl;
+    return 1;
+  }
+
   {
     int nmb_implementations = options_map.count("naivenmod") +  options_map.count("naivezech");
 #ifdef WITH_OPENCL
-- 
2.43.0


From b543799296c1d06f3c6da3bfc895ac293440f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:52 +0000
Subject: [PATCH 20/22] fix: a configuration whose Moduli is not a list is
 refused

It was taken for an empty list, so that a run succeeded without doing
anything.
---
 src/executables/mpi.cc      | 4 ++++
 src/executables/threaded.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/executables/mpi.cc b/src/executables/mpi.cc
index d43d931..4bc0529 100644
--- a/src/executables/mpi.cc
+++ b/src/executables/mpi.cc
@@ -140,6 +140,10 @@ main(
   vector<ConfigNode> config;
   if ( !config_yaml["Moduli"] )
     config.emplace_back(config_yaml.as<ConfigNode>());
+  else if ( !config_yaml["Moduli"].IsSequence() ) {
+    cerr << "Moduli in configuration file is not a list" << endl;
+    mpi_environment.abort(1);
+  }
   else
     for ( const auto & node : config_yaml["Moduli"] )
       config.emplace_back(node.as<ConfigNode>());
diff --git a/src/executables/threaded.cc b/src/executables/threaded.cc
index 137310c..03422de 100644
--- a/src/executables/threaded.cc
+++ b/src/executables/threaded.cc
@@ -123,6 +123,10 @@ main(
   vector<ConfigNode> config;
   if ( !config_yaml["Moduli"] )
     config.emplace_back(config_yaml.as<ConfigNode>());
+  else if ( !config_yaml["Moduli"].IsSequence() ) {
+    cerr << "Moduli in configuration file is not a list" << endl;
+    return 1;
+  }
   else
     for ( const auto & node : config_yaml["Moduli"] )
       config.emplace_back(node.as<ConfigNode>());
-- 
2.43.0


From 5a4e30b938cac01c70f4ccdc248a5c0b4135797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:51 +0000
Subject: [PATCH 21/22] fix: reject moduli whose fields or counted extensions
 have 2^31 elements or more

The tables of field elements are indexed by 32 bit integers; sizes beyond
overflowed silently and gave wrong counts or never ended.
---
 src/config/config_node.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config/config_node.hh b/src/config/config_node.hh
index c602e54..5d086b1 100644
--- a/src/config/config_node.hh
+++ b/src/config/config_node.hh
@@ -25,6 +25,7 @@
 #define _H_CONFIG_NODE
 
 #include <boost/filesystem.hpp>
+#include <cmath>
 #include <flint/ulong_extras.h>
 #include <ostream>
 #include <string>
@@ -56,6 +57,8 @@ struct ConfigNode
   {
     return (    prime != 2 && n_is_prime(prime) && prime_exponent != 0
              && genus != 0 && count_exponent != 0
+             // tables are indexed by 32 bit integers
+             && std::pow((double)prime, (double)prime_exponent * count_exponent) < std::pow(2., 31)
              && (is_directory(result_path) || create_directories(result_path))
              && package_size != 0
            );
-- 
2.43.0


From d2b7885c18dd1e8ffe811cfc1d722b759d90f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:51 +0000
Subject: [PATCH 22/22] fix: hycu-single refuses fields of 2^31 elements or
 more

Their size overflowed 32 bits: counts and offsets were wrong and the list of
ramified points was endless.
---
 src/executables/single.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/executables/single.cc b/src/executables/single.cc
index 87973c5..52cacdf 100644
--- a/src/executables/single.cc
+++ b/src/executables/single.cc
@@ -23,6 +23,7 @@
 
 #include <algorithm>
 #include <boost/program_options.hpp>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <limits>
@@ -117,6 +118,17 @@ main(
     return 1;
   }
 
+  {
+    size_t degree = coefficients.size() - 1;
+    while ( coefficients[degree] == 0 )
+      --degree;
+    // tables are indexed by 32 bit integers
+    if ( pow((double)field_size, max((degree - 1) / 2, (size_t)1)) >= pow(2., 31) ) {
+      cerr << "field is too large to count points" << endl;
+      return 1;
+    }
+  }
+
   {
     int nmb_implementations = options_map.count("naivenmod") +  options_map.count("naivezech");
 #ifdef WITH_OPENCL
-- 
2.43.0

