From 366bc9c3772429bd8ed779352ecf55f0b52a1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 01/16] fix: lowest neighborhood penalty takes exactly the
 existing edges

The minimum towards the left neighbor skipped existing edges and included
edges that violate the continuity constraint, so it differed from the one
of the same neighborhood seen from its other end.
---
 lib/lowest_penalties.cpp | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/lib/lowest_penalties.cpp b/lib/lowest_penalties.cpp
index 8b3649b..1ab2839 100644
--- a/lib/lowest_penalties.cpp
+++ b/lib/lowest_penalties.cpp
@@ -33,6 +33,7 @@ namespace lowest_penalties
 {
 
 using sp::graph::disparity::NEIGHBORS_COUNT;
+using sp::indexing::checks::edge_exists;
 using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::neighborhood_index;
@@ -144,7 +145,6 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
 )
 {
     FLOAT minimal_penalty = edge_penalty(graph, edge);
-    ULONG initial_disparity = 0;
     for (
         edge.node.disparity = 0;
         edge.node.pixel.x + edge.node.disparity < graph->left.width
@@ -152,28 +152,20 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
         ++edge.node.disparity
     )
     {
-        if (
-            edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
-        )
-        {
-            initial_disparity = 0;
-        }
-        else
-        {
-            initial_disparity = edge.node.disparity - 1;
-        }
         for (
-            edge.neighbor.disparity = initial_disparity;
+            edge.neighbor.disparity = 0;
             edge.neighbor.pixel.x + edge.neighbor.disparity < graph->left.width
                 && edge.neighbor.disparity < graph->disparity_levels;
             ++edge.neighbor.disparity
         )
         {
-            minimal_penalty = MIN(
-                edge_penalty(graph, edge),
-                minimal_penalty
-            );
+            if (edge_exists(graph, edge))
+            {
+                minimal_penalty = MIN(
+                    edge_penalty(graph, edge),
+                    minimal_penalty
+                );
+            }
         }
     }
     return minimal_penalty;
-- 
2.43.0


From 2d8fd5a1403a08e720b2af340d9ca1ec218c6e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 02/16] fix: candidate thresholds of a neighborhood come from
 existing edges only

Towards the left neighbor existing edges were skipped and edges that violate
the continuity constraint were included.
---
 lib/labeling_finder.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index eb25e4f..4824c98 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -46,6 +46,7 @@ namespace finder
 {
 
 using sp::graph::disparity::NEIGHBORS_COUNT;
+using sp::indexing::checks::edge_exists;
 using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::pixel_index;
@@ -106,7 +107,6 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
 {
     FLOAT_ARRAY result;
 
-    ULONG initial_disparity = 0;
     for (
         edge.node.disparity = 0;
         edge.node.pixel.x + edge.node.disparity < graph->left.width
@@ -114,25 +114,19 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
         ++edge.node.disparity
     )
     {
-        if (
-            edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
-        )
-        {
-            initial_disparity = 0;
-        }
-        else
-        {
-            initial_disparity = edge.node.disparity - 1;
-        }
         for (
-            edge.neighbor.disparity = initial_disparity;
+            edge.neighbor.disparity = 0;
             edge.neighbor.pixel.x + edge.neighbor.disparity < graph->left.width
                 && edge.neighbor.disparity < graph->disparity_levels;
             ++edge.neighbor.disparity
         )
         {
-            result.push_back(edge_penalty(graph, edge) - minimal_penalty);
+            if (edge_exists(graph, edge))
+            {
+                result.push_back(
+                    edge_penalty(graph, edge) - minimal_penalty
+                );
+            }
         }
     }
 
-- 
2.43.0


From 6103206b769a5e86aa794d07351a9c3538b64bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:13 +0000
Subject: [PATCH 03/16] fix: edge availability of a missing edge is answered
 without reading penalties

The penalty was evaluated before checking that the edge exists, which read
outside of the reparametrization and the lowest penalties.
---
 lib/constraint_graph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index bf868bf..227995a 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -161,12 +161,12 @@ __device__ BOOL is_edge_available(
 )
 {
     return
-        (edge_penalty(graph->disparity_graph, edge)
-         - lowest_neighborhood_penalty(graph->lowest_penalties, edge)
-         <= graph->threshold)
+        edge_exists(graph->disparity_graph, edge)
         && is_node_available(graph, edge.node)
         && is_node_available(graph, edge.neighbor)
-        && edge_exists(graph->disparity_graph, edge);
+        && (edge_penalty(graph->disparity_graph, edge)
+            - lowest_neighborhood_penalty(graph->lowest_penalties, edge)
+            <= graph->threshold);
 }
 
 __device__ BOOL should_remove_node(
-- 
2.43.0


From 4eec1ffeaf29b649c0100863617c03b94f0c22a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:53 +0000
Subject: [PATCH 04/16] fix: a pruning sweep reports the nodes it removes

The result of processing a pixel was dropped, so solve_csp stopped after
one sweep, before the fixed point.
---
 lib/constraint_graph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index 227995a..03e22ef 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -315,7 +315,10 @@ __device__ BOOL csp_solution_iteration(
             ++node.pixel.x
         )
         {
-            csp_process_pixel(graph, node.pixel);
+            if (csp_process_pixel(graph, node.pixel))
+            {
+                changed = TRUE;
+            }
             pixel_available = FALSE;
             for (
                 node.disparity = 0;
-- 
2.43.0


From fe2bf632f2955a515d72a08220630acceba6251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:18 +0000
Subject: [PATCH 05/16] fix: the best node of a pixel is found among negative
 penalties too

---
 lib/labeling_finder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 4824c98..f9c21dd 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -259,7 +259,8 @@ __device__ struct ConstraintGraph* choose_best_node(
     struct Node node;
     node.pixel = pixel;
     node.disparity = 0;
-    FLOAT minimal_penalty = -1;
+    FLOAT minimal_penalty = 0;
+    bool penalty_found = false;
     for (
         node.disparity = 0;
         node.pixel.x + node.disparity < graph->disparity_graph->left.width
@@ -272,9 +273,10 @@ __device__ struct ConstraintGraph* choose_best_node(
             continue;
         }
 
-        if (minimal_penalty < 0)
+        if (!penalty_found)
         {
             minimal_penalty = node_penalty(graph->disparity_graph, node);
+            penalty_found = true;
         }
         else {
             minimal_penalty = MIN(
-- 
2.43.0


From 4060adb994ac17c1b17bedf658f5bac74f58ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:26 +0000
Subject: [PATCH 06/16] fix: a pixel with several labels is reported when a
 disparity map is built

---
 lib/labeling_finder.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index f9c21dd..9b0d60c 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -416,7 +416,6 @@ __device__ struct Image build_disparity_map(
                     result.data[pixel_index(&result, node.pixel)]
                         = node.disparity;
                     found = true;
-                    break;
                 }
             }
             if (!found)
-- 
2.43.0


From 52a44fea2993c71c7afd790b4ea9e44ef8b8317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 07/16] fix: weights that are not numbers are rejected

---
 lib/disparity_graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disparity_graph.cpp b/lib/disparity_graph.cpp
index 8cf2086..e529593 100644
--- a/lib/disparity_graph.cpp
+++ b/lib/disparity_graph.cpp
@@ -133,7 +133,7 @@ DisparityGraph::DisparityGraph(
             + "respectively."
         );
     }
-    if (this->cleanness < 0)
+    if (!(this->cleanness >= 0))
     {
         throw std::invalid_argument(
             "Cleanness weight should not be negative. "
@@ -142,7 +142,7 @@ DisparityGraph::DisparityGraph(
             + "."
         );
     }
-    if (this->smoothness < 0)
+    if (!(this->smoothness >= 0))
     {
         throw std::invalid_argument(
             "Smoothness weight should not be negative. "
-- 
2.43.0


From 7f864193c06b3da63ed742bd641ec7b39baa8d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:07 +0000
Subject: [PATCH 08/16] fix: numbers in PGM have to be decimal and
 representable

A minus sign, a suffix that is not a comment and a number that does not fit
were accepted or led to an exception instead of the failed stream.
---
 lib/pgm_io.cpp | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index a833bd5..123add2 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -44,6 +44,7 @@ using std::isspace;
 using std::make_shared;
 using std::move;
 using std::numeric_limits;
+using std::out_of_range;
 using std::stoul;
 using std::streamsize;
 using std::string;
@@ -86,6 +87,30 @@ string PGM_IO::read_pgm_instruction(istream& in)
     return current_input;
 }
 
+/**
+ * \brief Convert an instruction that consists of decimal digits to a number.
+ *
+ * A comment may follow the digits immediately,
+ * in this case the rest of its line is skipped.
+ *
+ * \throws invalid_argument if there is something except digits.
+ * \throws out_of_range if the number is too big.
+ */
+static ULONG parse_number(istream& in, const string& instruction)
+{
+    const string number = instruction.substr(0, instruction.find('#'));
+    if (number.empty()
+        || number.find_first_not_of("0123456789") != string::npos)
+    {
+        throw invalid_argument("Not a number");
+    }
+    if (number.size() < instruction.size() && in.good())
+    {
+        in.ignore(numeric_limits<streamsize>::max(), '\n');
+    }
+    return stoul(number);
+}
+
 bool PGM_IO::check_file_end(istream& in)
 {
     char current_input;
@@ -157,15 +182,23 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
 
     try
     {
-        image->width = stoul(PGM_IO::read_pgm_instruction(in));
-        image->height = stoul(PGM_IO::read_pgm_instruction(in));
-        image->max_value = stoul(PGM_IO::read_pgm_instruction(in));
+        image->width =
+            parse_number(in, PGM_IO::read_pgm_instruction(in));
+        image->height =
+            parse_number(in, PGM_IO::read_pgm_instruction(in));
+        image->max_value =
+            parse_number(in, PGM_IO::read_pgm_instruction(in));
     }
     catch (invalid_argument&)
     {
         in.setstate(ios_base::failbit);
         return in;
     }
+    catch (out_of_range&)
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
 
     if (image->max_value > PGM_IO::MAX_VALUE_LIMIT)
     {
@@ -181,13 +214,18 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
             try
             {
                 image->data[pixel_index(image.get(), {x, y})] =
-                    stoul(PGM_IO::read_pgm_instruction(in));
+                    parse_number(in, PGM_IO::read_pgm_instruction(in));
             }
             catch (invalid_argument&)
             {
                 in.setstate(ios_base::failbit);
                 return in;
             }
+            catch (out_of_range&)
+            {
+                in.setstate(ios_base::failbit);
+                return in;
+            }
         }
     }
 
-- 
2.43.0


From 9fa1cc9563b29f03280f3c7602ff7265a149231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:07 +0000
Subject: [PATCH 09/16] fix: a PGM header with huge sizes makes the read fail

The product of the sizes could wrap around, which led to writes outside the
pixels, and memory was allocated before any intensity was seen, which led to
an exception.
---
 lib/pgm_io.cpp | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 123add2..71e862e 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -205,27 +205,29 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         in.setstate(ios_base::failbit);
         return in;
     }
-    image->data.resize(image->width * image->height);
+    if (image->height != 0
+        && image->width > numeric_limits<ULONG>::max() / image->height)
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
 
-    for (ULONG y = 0; y < image->height; ++y)
+    for (ULONG i = 0; i < image->width * image->height; ++i)
     {
-        for (ULONG x = 0; x < image->width; ++x)
+        try
         {
-            try
-            {
-                image->data[pixel_index(image.get(), {x, y})] =
-                    parse_number(in, PGM_IO::read_pgm_instruction(in));
-            }
-            catch (invalid_argument&)
-            {
-                in.setstate(ios_base::failbit);
-                return in;
-            }
-            catch (out_of_range&)
-            {
-                in.setstate(ios_base::failbit);
-                return in;
-            }
+            image->data.push_back(
+                parse_number(in, PGM_IO::read_pgm_instruction(in)));
+        }
+        catch (invalid_argument&)
+        {
+            in.setstate(ios_base::failbit);
+            return in;
+        }
+        catch (out_of_range&)
+        {
+            in.setstate(ios_base::failbit);
+            return in;
         }
     }
 
-- 
2.43.0


From 9336538b0f261410a9fd14f59a6590141ed6a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:07 +0000
Subject: [PATCH 10/16] fix: an intensity above the declared maximum makes the
 PGM read fail

---
 lib/pgm_io.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 71e862e..26f5fdf 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -218,6 +218,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         {
             image->data.push_back(
                 parse_number(in, PGM_IO::read_pgm_instruction(in)));
+            if (image->data.back() > image->max_value)
+            {
+                in.setstate(ios_base::failbit);
+                return in;
+            }
         }
         catch (invalid_argument&)
         {
-- 
2.43.0


From c33dd318316f4ee0ae0ea7351b40913c2568105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:07 +0000
Subject: [PATCH 11/16] fix: a PGM with redundant data does not replace the
 image

---
 lib/pgm_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 26f5fdf..d6ec2ad 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -237,6 +237,10 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
     }
 
     PGM_IO::check_file_end(in);
+    if (in.fail())
+    {
+        return in;
+    }
 
     ppm_io.set_image(image);
 
-- 
2.43.0


From b24b553e1f399a5774a96d5a7dde8dbb5520ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:56 +0000
Subject: [PATCH 12/16] fix: the change flag of the OpenCL pruning is not lost
 between work-groups

---
 lib/gpu_csp.cpp  |  7 ++++---
 lib/solve_csp.cl | 22 +++++-----------------
 2 files changed, 9 insertions(+), 20 deletions(-)

diff --git a/lib/gpu_csp.cpp b/lib/gpu_csp.cpp
index 162b818..8da4396 100644
--- a/lib/gpu_csp.cpp
+++ b/lib/gpu_csp.cpp
@@ -69,7 +69,7 @@ BOOL csp_solution_cl(
 
     vector<int> tmp(graph->nodes_availability.begin(), graph->nodes_availability.end());
     compute::vector<int> nodes_availability(tmp, problem->queue);
-    compute::vector<int> changed({0, 0}, problem->queue);
+    compute::vector<int> changed({0}, problem->queue);
 
     kernel csp_iteration = problem->program.create_kernel("csp_iteration");
     csp_iteration.set_args(
@@ -124,6 +124,7 @@ BOOL csp_solution_cl(
 
             do
             {
+                changed[0] = 0;
                 queue.enqueue_1d_range_kernel(
                     csp_iteration,
                     0,
@@ -132,7 +133,7 @@ BOOL csp_solution_cl(
                 );
 
                 queue.finish();
-            } while (changed[1] != 0);
+            } while (changed[0] != 0);
         }
     }
 
@@ -140,7 +141,7 @@ BOOL csp_solution_cl(
         nodes_availability.begin(),
         nodes_availability.end()
     );
-    return changed[1] != 0;
+    return changed[0] != 0;
 }
 
 }
diff --git a/lib/solve_csp.cl b/lib/solve_csp.cl
index 3b8b3c6..f040651 100644
--- a/lib/solve_csp.cl
+++ b/lib/solve_csp.cl
@@ -54,21 +54,13 @@ void populate_structures_gpu(
 void csp_solution_iteration_gpu(
     struct ConstraintGraph* constraint_graph,
     struct Pixel pixel,
-    __global int* changed_step,
-    __global int* changed_any
+    __global int* changed
 )
 {
-    do
+    if (csp_process_pixel(constraint_graph, pixel))
     {
-        *changed_step = 0;
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-        if (csp_process_pixel(constraint_graph, pixel))
-        {
-            *changed_step = 1;
-            *changed_any = 1;
-        }
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-    } while (*changed_step);
+        *changed = 1;
+    }
 }
 
 __kernel void csp_iteration(
@@ -113,9 +105,6 @@ __kernel void csp_iteration(
         smoothness
     );
 
-    atomic_and(&changed[0], 0);
-    atomic_and(&changed[1], 0);
-
     struct Pixel pixel;
     pixel.x = thread_id % constraint_graph.disparity_graph->right.width;
     pixel.y = thread_id / constraint_graph.disparity_graph->right.width;
@@ -123,8 +112,7 @@ __kernel void csp_iteration(
     csp_solution_iteration_gpu(
         &constraint_graph,
         pixel,
-        &changed[0],
-        &changed[1]
+        changed
     );
 }
 
-- 
2.43.0


From d63bb7988cacfec6f5aaed942e98b17f4531c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:58 +0000
Subject: [PATCH 13/16] fix: a failure of the tool is reported by its exit
 status

---
 lib/main.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/main.cpp b/lib/main.cpp
index 583277d..3b8764b 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -240,14 +240,24 @@ int main(int argc, char* argv[]) try
             std::ofstream image_file(vm["output-image"].as<std::string>());
             sp::image::PGM_IO pgm_io{result};
             image_file << pgm_io;
+            image_file.close();
+            if (!image_file)
+            {
+                throw std::invalid_argument(
+                    "Unable to write file `"
+                    + vm["output-image"].as<std::string>() + "`."
+                );
+            }
         }
         catch (std::invalid_argument& e)
         {
             std::cerr << "Invalid argument: " << e.what() << std::endl;
+            return 1;
         }
         catch (std::logic_error& e)
         {
             std::cerr << "Logic error: " << e.what() << std::endl;
+            return 1;
         }
     }
     else if (vm.count("left-image") == 0 || vm.count("right-image") == 0)
@@ -255,12 +265,14 @@ int main(int argc, char* argv[]) try
         std::cerr
             << "You should specify both left and right image."
             << std::endl;
+        return 1;
     }
     else if (vm.count("output-image") == 0)
     {
         std::cerr
             << "You should specify the output image path."
             << std::endl;
+        return 1;
     }
     else
     {
-- 
2.43.0


From 82aa76520c797ab80be1baf2c91ff36b89509ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:08 +0000
Subject: [PATCH 14/16] fix: the tool takes real weights and refuses malformed
 numbers

---
 lib/main.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/lib/main.cpp b/lib/main.cpp
index 3b8764b..16d609c 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -18,6 +18,8 @@
 #include <string>
 
 struct sp::image::Image read_image(const std::string& image_path);
+sp::types::ULONG read_natural(const std::string& number);
+sp::types::FLOAT read_real(const std::string& number);
 
 enum Parallelism
 {
@@ -143,21 +145,21 @@ int main(int argc, char* argv[]) try
             }
             else
             {
-                disparity_levels = std::stoul(
+                disparity_levels = read_natural(
                     vm["disparity-levels"].as<std::string>()
                 );
             }
             sp::types::FLOAT cleanness = 1;
             if (vm.count("cleanness") == 1)
             {
-                cleanness = std::stoul(
+                cleanness = read_real(
                     vm["cleanness"].as<std::string>()
                 );
             }
             sp::types::FLOAT smoothness = 1;
             if (vm.count("smoothness") == 1)
             {
-                smoothness = std::stoul(
+                smoothness = read_real(
                     vm["smoothness"].as<std::string>()
                 );
             }
@@ -319,3 +321,28 @@ struct sp::image::Image read_image(const std::string& image_path)
     }
     return *pgm_io.get_image();
 }
+
+sp::types::ULONG read_natural(const std::string& number)
+{
+    if (
+        number.empty()
+        || number.find_first_not_of("0123456789") != std::string::npos
+    )
+    {
+        throw std::invalid_argument(
+            "`" + number + "` is not a natural number."
+        );
+    }
+    return std::stoul(number);
+}
+
+sp::types::FLOAT read_real(const std::string& number)
+{
+    std::size_t length = 0;
+    sp::types::FLOAT result = std::stod(number, &length);
+    if (length != number.size())
+    {
+        throw std::invalid_argument("`" + number + "` is not a number.");
+    }
+    return result;
+}
-- 
2.43.0


From 3b906b2b6efdfc0a5169ea02d2d482c46b5f0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:04 +0000
Subject: [PATCH 15/16] fix: CUDA threads leave the pruning loop together

A thread which passed the second barrier could start the next iteration and clear the flag before another thread had read it: that one left the loop while the first waited for it at the barrier, and the pruning could stop early.
---
 lib/solve_csp.cu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/solve_csp.cu b/lib/solve_csp.cu
index e5617eb..5bca922 100644
--- a/lib/solve_csp.cu
+++ b/lib/solve_csp.cu
@@ -103,6 +103,10 @@ __device__ void csp_solution_iteration_gpu(
     cooperative_groups::grid_group g = cooperative_groups::this_grid();
     do
     {
+        // The flag is cleared only after every thread has read it,
+        // otherwise some threads may leave the loop
+        // while the others wait for them at the barrier.
+        g.sync();
         *changed = 0;
         g.sync();
         if (csp_process_pixel(constraint_graph, pixel))
-- 
2.43.0


From 16f474b18a86acd2e65e01f66b10a2e7a7f769ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:14 +0000
Subject: [PATCH 16/16] fix: a failing CUDA launch ends the program with a
 failure

The program ended with the status of a success, so callers could not tell that no disparity map had been written.
---
 lib/cuda_csp.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/cuda_csp.cu b/lib/cuda_csp.cu
index 06120ca..3abbb94 100644
--- a/lib/cuda_csp.cu
+++ b/lib/cuda_csp.cu
@@ -27,6 +27,7 @@
 
 #include <cassert>
 #include <cstdio>
+#include <cstdlib>
 #include <vector>
 
 #define cdpErrchk(ans) { cdpAssert((ans), __FILE__, __LINE__); }
@@ -43,7 +44,7 @@ __host__ __device__ void cdpAssert(cudaError_t code, const char *file, int line)
  cudaError_t e=cudaGetLastError();                                 \
  if(e!=cudaSuccess) {                                              \
    printf("Cuda failure %s:%d: '%s'\n",__FILE__,__LINE__,cudaGetErrorString(e));           \
-   exit(0); \
+   exit(EXIT_FAILURE); \
  }                                                                 \
 }
 
-- 
2.43.0

