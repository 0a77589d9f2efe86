From 09dbb569b7555dfddb5bef3c48bb46b6873f8a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:12 +0000
Subject: [PATCH 01/32] sim: guarded per-interval hook in MNM_Dta::load_once
 (MACPOSTS_SIM, off by default)

---
 src/dta.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dta.cpp b/src/dta.cpp
index 0a7078c..d6c56e2 100644
--- a/src/dta.cpp
+++ b/src/dta.cpp
@@ -2,6 +2,12 @@
 
 using macposts::graph::Direction;
 
+#ifdef MACPOSTS_SIM
+// Simulation seam: called at the end of every loading interval. It is provided
+// by the simulation harness and compiled out by default.
+void macposts_sim_tick (MNM_Dta *dta, int interval);
+#endif
+
 MNM_Dta::MNM_Dta (const std::string &file_folder)
 {
   m_file_folder = file_folder;
@@ -685,6 +691,9 @@ MNM_Dta::load_once (bool verbose, TInt load_int, TInt assign_int)
   // test();
   // consistent with loading()
   m_current_loading_interval = load_int + 1;
+#ifdef MACPOSTS_SIM
+  macposts_sim_tick (this, load_int);
+#endif
   return 0;
 }
 
-- 
2.43.0


From 814804504dccbf4fca32806981b1b8e017a75c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:41 +0000
Subject: [PATCH 02/32] fix: per-OD adaptive ratio must not leak into the
 following OD pairs

The time-dependent adaptive ratio of one destination overwrote the
function argument, so every later destination (and the truck class) of the
same release used it too.
---
 src/multiclass.cpp | 36 ++++++++++++++++++++----------------
 src/multimodal.cpp | 36 ++++++++++++++++++++----------------
 src/od.cpp         |  9 +++++----
 3 files changed, 45 insertions(+), 36 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 70c4f0d..c92832b 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3081,19 +3081,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3102,7 +3103,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3130,19 +3131,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3151,7 +3153,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3196,19 +3198,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_car;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3217,7 +3220,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3245,19 +3248,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_truck;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3266,7 +3270,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 430bb80..86c79fa 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2675,8 +2675,9 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2685,13 +2686,13 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0),
                                                      TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2700,7 +2701,7 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2727,8 +2728,9 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2737,13 +2739,13 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1),
                                                      TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2752,7 +2754,7 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2882,8 +2884,9 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_car;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2892,13 +2895,13 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0),
                                                      TInt (1));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2907,7 +2910,7 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2934,8 +2937,9 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_truck;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2944,13 +2948,13 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1),
                                                      TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2959,7 +2963,7 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/od.cpp b/src/od.cpp
index 9490b0e..d89bf8d 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -137,18 +137,19 @@ MNM_Origin::release_one_interval (TInt current_interval,
        _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio.find(_demand_it->first) != m_adaptive_ratio.end()) {
-        adaptive_ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = veh_factory->make_veh (current_interval, MNM_TYPE_STATIC);
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = veh_factory->make_veh (current_interval, MNM_TYPE_ADAPTIVE);
@@ -156,7 +157,7 @@ MNM_Origin::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = veh_factory->make_veh (current_interval,
                                                 MNM_TYPE_ADAPTIVE);
-- 
2.43.0


From 7844ea7d2b1aebbdc966b3d2d42d530566191205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:38 +0000
Subject: [PATCH 03/32] fix: CTM link volume counted vehicles waiting at the
 exit twice

The last cell's volume already includes m_finished_array; adding it again
inflated recorded volumes and the travel times derived from them.
---
 src/dlink.cpp      |  2 +-
 src/multiclass.cpp | 23 ++++-------------------
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index eda34d9..7cd63d9 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -397,9 +397,9 @@ MNM_Dlink_Ctm::get_link_flow ()
   TInt _total_volume = 0;
   for (int i = 0; i < m_num_cells; ++i)
     {
+      // the last cell's volume already covers m_finished_array
       _total_volume += m_cell_array[i]->m_volume;
     }
-  _total_volume += m_finished_array.size ();
   return TFlt (_total_volume) / m_flow_scalar;
 }
 
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index c92832b..f3a5230 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -876,14 +876,7 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_car ()
     {
       _total_volume_car += m_cell_array[i]->m_volume_car;
     }
-  std::deque<MNM_Veh *>::iterator _veh_it;
-  for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
-       _veh_it++)
-    {
-      MNM_Veh_Multiclass *_veh = dynamic_cast<MNM_Veh_Multiclass *> (*_veh_it);
-      if (_veh->m_class == 0)
-        _total_volume_car += 1;
-    }
+  // the last cell's volume already covers m_finished_array
   return TFlt (_total_volume_car) / m_flow_scalar;
 }
 
@@ -895,14 +888,7 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_truck ()
     {
       _total_volume_truck += m_cell_array[i]->m_volume_truck;
     }
-  std::deque<MNM_Veh *>::iterator _veh_it;
-  for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
-       _veh_it++)
-    {
-      MNM_Veh_Multiclass *_veh = dynamic_cast<MNM_Veh_Multiclass *> (*_veh_it);
-      if (_veh->m_class == 1)
-        _total_volume_truck += 1;
-    }
+  // the last cell's volume already covers m_finished_array
   return TFlt (_total_volume_truck) / m_flow_scalar;
 }
 
@@ -995,9 +981,8 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow ()
       _total_volume_car += m_cell_array[i]->m_volume_car;
       _total_volume_truck += m_cell_array[i]->m_volume_truck;
     }
-  return TFlt (_total_volume_car + _total_volume_truck
-               + m_finished_array.size ())
-         / m_flow_scalar;
+  // the last cell's volume already covers m_finished_array
+  return TFlt (_total_volume_car + _total_volume_truck) / m_flow_scalar;
 }
 
 TFlt
-- 
2.43.0


From b77755f976a1523da29daeb44d382e66e01e1f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 04/32] fix: link-queue free-flow time is in intervals like
 every other link type

MNM_Dlink_Lq::get_link_freeflow_tt_loading returned seconds where callers
use loading intervals.
---
 src/dlink.cpp      | 2 +-
 src/multiclass.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 7cd63d9..d5f09d2 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -937,7 +937,7 @@ MNM_Dlink_Lq::get_link_freeflow_tt_loading ()
 {
   // throw std::runtime_error("Error, MNM_Dlink_Lq::get_link_freeflow_tt_loading
   // NOT implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs);
+  return MNM_Ults::round_up_time (m_length / (m_ffs * m_unit_time));
 }
 
 /**************************************************************************
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index f3a5230..f31c2a6 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1946,7 +1946,8 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_car);
+  return MNM_Ults::round_up_time (
+    m_length / (m_ffs_car * m_unit_time));
 }
 
 TInt
@@ -1955,7 +1956,8 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_truck);
+  return MNM_Ults::round_up_time (
+    m_length / (m_ffs_truck * m_unit_time));
 }
 
 /// Multiclass point queue model
-- 
2.43.0


From 6c67aaecf8a93b4b269b9f95caad83fd3a4391dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:51 +0000
Subject: [PATCH 05/32] fix: order destinations by ID, not by address, when
 releasing demand

The demand maps of an origin were keyed by MNM_Destination pointers, so the
order in which vehicles to different destinations were created, routed and
given random draws depended on where the allocator placed the objects: the
same inputs and random state could give different loadings.
---
 src/multiclass.cpp  |  8 ++++----
 src/multiclass.h    |  8 ++++----
 src/od.cpp          |  8 ++++----
 src/od.h            | 19 +++++++++++++++++--
 src/pre_routing.cpp |  3 +--
 5 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index f31c2a6..7852786 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2866,10 +2866,10 @@ MNM_Origin_Multiclass::MNM_Origin_Multiclass (TInt ID, TInt max_interval,
                                               TFlt flow_scalar, TInt frequency)
     : MNM_Origin::MNM_Origin (ID, max_interval, flow_scalar, frequency)
 {
-  m_demand_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_demand_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_adaptive_ratio_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_adaptive_ratio_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
+  m_demand_car = std::map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Less> ();
+  m_demand_truck = std::map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Less> ();
+  m_adaptive_ratio_car = std::map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Less> ();
+  m_adaptive_ratio_truck = std::map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Less> ();
   m_car_label_ratio = std::vector<TFlt> ();
   m_truck_label_ratio = std::vector<TFlt> ();
 }
diff --git a/src/multiclass.h b/src/multiclass.h
index a3e2bce..db50372 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -422,10 +422,10 @@ public:
   int add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck);
   // two new unordered_map for both classes
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_car;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_truck;
+  std::map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Less> m_demand_car;
+  std::map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Less> m_demand_truck;
+  std::map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Less> m_adaptive_ratio_car;
+  std::map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Less> m_adaptive_ratio_truck;
 
   std::vector<TFlt> m_car_label_ratio;
   std::vector<TFlt> m_truck_label_ratio;
diff --git a/src/od.cpp b/src/od.cpp
index d89bf8d..d315b16 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -14,11 +14,11 @@ MNM_Origin::MNM_Origin (TInt ID, TInt max_interval, TFlt flow_scalar,
     }
   m_frequency = frequency;
   m_demand
-    = std::unordered_map<MNM_Destination *,
-                         TFlt *> (); // destination node, time-varying demand
+    = std::map<MNM_Destination *, TFlt *,
+               MNM_Destination_Less> (); // destination node, time-varying demand
   m_adaptive_ratio
-    = std::unordered_map<MNM_Destination *,
-                         TFlt *> (); // destination node, time-varying adaptive ratio
+    = std::map<MNM_Destination *, TFlt *,
+               MNM_Destination_Less> (); // destination node, time-varying adaptive ratio
 
   m_vehicle_label_ratio = std::vector<TFlt> ();
 }
diff --git a/src/od.h b/src/od.h
index db1ef5d..a07b44a 100644
--- a/src/od.h
+++ b/src/od.h
@@ -4,6 +4,7 @@
 #include "dnode.h"
 #include "factory.h"
 #include "ults.h"
+#include <map>
 #include <unordered_map>
 #include <vector>
 
@@ -15,6 +16,13 @@ class MNM_DMOND;
 class MNM_DMDND;
 class MNM_Routing;
 
+// Orders destinations by ID, so that the release order (and with it the use of
+// the random stream) does not depend on where they happen to live in memory.
+struct MNM_Destination_Less
+{
+  bool operator() (const MNM_Destination *a, const MNM_Destination *b) const;
+};
+
 class MNM_Origin
 {
 public:
@@ -46,8 +54,8 @@ public:
   TInt m_current_assign_interval;
   TInt m_max_assign_interval;
   TFlt m_flow_scalar;
-  std::unordered_map<MNM_Destination *, TFlt *> m_demand;
-  std::unordered_map<MNM_Destination *, TFlt *> m_adaptive_ratio;
+  std::map<MNM_Destination *, TFlt *, MNM_Destination_Less> m_demand;
+  std::map<MNM_Destination *, TFlt *, MNM_Destination_Less> m_adaptive_ratio;
 
   std::vector<TFlt> m_vehicle_label_ratio;
 };
@@ -65,6 +73,13 @@ public:
                        MNM_Veh_Factory *veh_factory, bool del = true);
 };
 
+inline bool
+MNM_Destination_Less::operator() (const MNM_Destination *a,
+                                  const MNM_Destination *b) const
+{
+  return a->m_Dest_ID < b->m_Dest_ID;
+}
+
 namespace MNM
 {
 TFlt get_demand_bynode (TInt O_node, TInt D_node, TInt assign_inter,
diff --git a/src/pre_routing.cpp b/src/pre_routing.cpp
index 47d6e0d..9671b2a 100644
--- a/src/pre_routing.cpp
+++ b/src/pre_routing.cpp
@@ -33,8 +33,7 @@ MNM_Pre_Routing::MNM_Pre_Routing (Path_Table *path_table,
           _origin_node_ID = _o_it->second->m_origin_node->m_node_ID;
           //-----
           int size_demand = _o_it->second->m_max_assign_interval;
-          std::unordered_map<MNM_Destination *, TFlt *>::const_iterator
-            demand_it
+          auto demand_it
             = _o_it->second->m_demand.find (_d_it->second);
           if (demand_it != _o_it->second->m_demand.end ())
             {
-- 
2.43.0


From 3d97a42ac5b69ab6ab4710b772c0a921c8a9a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:53 +0000
Subject: [PATCH 06/32] fix: two-class demand copies assumed 15-minute
 assignment intervals

The per-minute demand and adaptive ratios handed over by the reader hold
max_interval * (minutes per interval) values; copying max_interval * 15 read
past the end for shorter intervals and dropped demand for longer ones.
---
 src/multiclass.cpp | 32 ++++++++++++++++++--------------
 src/multiclass.h   |  6 ++++--
 src/multimodal.cpp |  3 ++-
 3 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 7852786..15778dc 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2967,18 +2967,19 @@ MNM_Origin_Multiclass::generate_label (TInt veh_class)
 
 int
 MNM_Origin_Multiclass::add_dest_demand_multiclass (
-  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck)
+  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck,
+  TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // one entry per minute, num_of_minute minutes in each assignment interval
+  double *_demand_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_car[i] = TFlt (demand_car[i]);
     }
   m_demand_car.insert ({ dest, _demand_car });
 
-  double *_demand_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  double *_demand_truck = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_truck[i] = TFlt (demand_truck[i]);
     }
@@ -2989,18 +2990,19 @@ MNM_Origin_Multiclass::add_dest_demand_multiclass (
 
 int
 MNM_Origin_Multiclass::add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck)
+                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                                           TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  TFlt *_ratio_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // one entry per minute, num_of_minute minutes in each assignment interval
+  TFlt *_ratio_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _ratio_car[i] = TFlt (ad_ratio_car[i]);
     }
   m_adaptive_ratio_car.insert ({ dest, _ratio_car });
 
-  TFlt *_ratio_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  TFlt *_ratio_truck = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _ratio_truck[i] = TFlt (ad_ratio_truck[i]);
     }
@@ -3888,7 +3890,8 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
               _dest = dynamic_cast<MNM_Destination_Multiclass *> (
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _num_of_minute);
             }
           else
             {
@@ -3968,7 +3971,8 @@ MNM_IO_Multiclass::build_td_adaptive_ratio (const std::string &file_folder,
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_adaptive_ratio_multiclass (_dest, 
                                                            _ratio_vector_car,
-                                                           _ratio_vector_truck);
+                                                           _ratio_vector_truck,
+                                                           _num_of_minute);
             }
           else
             {
diff --git a/src/multiclass.h b/src/multiclass.h
index db50372..4a8cb7e 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -418,9 +418,11 @@ public:
 
   // use this one instead of add_dest_demand in the base class
   int add_dest_demand_multiclass (MNM_Destination_Multiclass *dest,
-                                  TFlt *demand_car, TFlt *demand_truck);
+                                  TFlt *demand_car, TFlt *demand_truck,
+                                  TInt num_of_minute);
   int add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck);
+                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                          TInt num_of_minute);
   // two new unordered_map for both classes
   std::map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Less> m_demand_car;
   std::map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Less> m_demand_truck;
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 86c79fa..d397d07 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -8621,7 +8621,8 @@ MNM_IO_Multimodal::build_vehicle_demand_multimodal (
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _num_of_minute);
             }
           else
             {
-- 
2.43.0


From 820efe04ba6cb6659428bcd8ef30ce1b9a8efe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:27 +0000
Subject: [PATCH 07/32] fix: count emission trips by vehicle ID, not by address

Vehicles are freed when they arrive and the allocator hands their addresses to
later ones, so a set of pointers under-counted the trips on the recorded links
by an amount that depended on the allocator.
---
 src/multiclass.cpp | 8 ++++----
 src/multiclass.h   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 15778dc..e8e8349 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -5956,8 +5956,8 @@ MNM_Cumulative_Emission_Multiclass::MNM_Cumulative_Emission_Multiclass (
 
   m_ev_label_truck = ev_label_truck;
 
-  m_car_set = std::unordered_set<MNM_Veh *> ();
-  m_truck_set = std::unordered_set<MNM_Veh *> ();
+  m_car_set = std::unordered_set<TInt> ();
+  m_truck_set = std::unordered_set<TInt> ();
 }
 
 MNM_Cumulative_Emission_Multiclass::~MNM_Cumulative_Emission_Multiclass () { ; }
@@ -6142,11 +6142,11 @@ MNM_Cumulative_Emission_Multiclass::update (MNM_Veh_Factory *veh_factory)
         {
           if (_veh_multiclass->m_class == 0)
             {
-              m_car_set.insert (_veh_multiclass);
+              m_car_set.insert (_veh_multiclass->m_veh_ID);
             }
           if (_veh_multiclass->m_class == 1)
             {
-              m_truck_set.insert (_veh_multiclass);
+              m_truck_set.insert (_veh_multiclass->m_veh_ID);
             }
         }
     }
diff --git a/src/multiclass.h b/src/multiclass.h
index 4a8cb7e..2b18247 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -790,8 +790,8 @@ public:
 
   TInt m_ev_label_truck;
 
-  std::unordered_set<MNM_Veh *> m_car_set;
-  std::unordered_set<MNM_Veh *> m_truck_set;
+  std::unordered_set<TInt> m_car_set;
+  std::unordered_set<TInt> m_truck_set;
 };
 
 /******************************************************************************************************************
-- 
2.43.0


From f792755534e21b9ed1bb761f1a6442de85da0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:05 +0000
Subject: [PATCH 08/32] fix: silence() must not swallow exceptions or leak
 descriptors

With an invalid descriptor the 'return' in the finally clause discarded every
exception raised in the block (even KeyboardInterrupt), and when opening the
null device failed the saved duplicate was never closed.
---
 macposts/utils.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/macposts/utils.py b/macposts/utils.py
index f966690..d7495fd 100644
--- a/macposts/utils.py
+++ b/macposts/utils.py
@@ -28,17 +28,23 @@ def silence(fd=STDOUT_FD):
     try:
         os.fstat(fd)
     except Exception:
-        try:
-            yield
-        finally:
-            return
+        valid = False
+    else:
+        valid = True
+    if not valid:
+        yield
+        return
 
     save = os.dup(fd)
-    null = os.open(os.devnull, os.O_RDWR)
-    os.dup2(null, fd)
     try:
-        yield
+        null = os.open(os.devnull, os.O_RDWR)
+        try:
+            os.dup2(null, fd)
+            try:
+                yield
+            finally:
+                os.dup2(save, fd)
+        finally:
+            os.close(null)
     finally:
-        os.dup2(save, fd)
-        os.close(null)
         os.close(save)
-- 
2.43.0


From 92cb9872ee1ac5d6f2381a3494546e3b27ead89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:00 +0000
Subject: [PATCH 09/32] fix: report missing or truncated network files instead
 of looping or going on

Readers of the node, link, OD, graph, demand and path files count the rows
announced in the configuration without looking at the state of the stream:
a file with fewer rows made them loop forever or parse the last row again,
and a missing one was taken for an empty one.
---
 src/io.cpp         | 29 ++++++++++++++++++++---------
 src/io.h           |  4 ++++
 src/multiclass.cpp |  6 +++---
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index f716ab7..47875ad 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -3,6 +3,17 @@
 
 using macposts::graph::Direction;
 
+void
+MNM_IO::open_input (std::ifstream &file, const std::string &file_name)
+{
+  file.open (file_name, std::ios::in);
+  if (!file.is_open ())
+    {
+      throw std::runtime_error ("failed to open file: " + file_name);
+    }
+  file.exceptions (std::ios::failbit | std::ios::badbit);
+}
+
 int
 MNM_IO::build_node_factory (const std::string &file_folder,
                             MNM_ConfReader *conf_reader,
@@ -12,7 +23,7 @@ MNM_IO::build_node_factory (const std::string &file_folder,
   /* find file */
   std::string _node_file_name = file_folder + "/" + file_name;
   std::ifstream _node_file;
-  _node_file.open (_node_file_name, std::ios::in);
+  open_input (_node_file, _node_file_name);
 
   /* read confid */
   TInt _num_of_node = conf_reader->get_int ("num_of_node");
@@ -87,7 +98,7 @@ MNM_IO::build_link_factory (const std::string &file_folder,
   /* find file */
   std::string _link_file_name = file_folder + "/" + file_name;
   std::ifstream _link_file;
-  _link_file.open (_link_file_name, std::ios::in);
+  open_input (_link_file, _link_file_name);
 
   /* read config */
   TInt _num_of_link = conf_reader->get_int ("num_of_link");
@@ -190,7 +201,7 @@ MNM_IO::build_od_factory (const std::string &file_folder,
   /* find file */
   std::string _od_file_name = file_folder + "/" + file_name;
   std::ifstream _od_file;
-  _od_file.open (_od_file_name, std::ios::in);
+  open_input (_od_file, _od_file_name);
 
   /* read config */
   TInt _num_of_O = conf_reader->get_int ("num_of_O");
@@ -272,7 +283,7 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
   /* find file */
   std::string _od_file_name = file_folder + "/" + file_name;
   std::ifstream _od_file;
-  _od_file.open (_od_file_name, std::ios::in);
+  open_input (_od_file, _od_file_name);
 
   /* read config */
   TInt _num_of_O = conf_reader->get_int ("num_of_O");
@@ -349,7 +360,7 @@ MNM_IO::build_od_factory (const std::string &file_folder,
   /* find file */
   std::string _od_file_name = file_folder + "/" + file_name;
   std::ifstream _od_file;
-  _od_file.open (_od_file_name, std::ios::in);
+  open_input (_od_file, _od_file_name);
 
   /* read config */
   TInt _num_of_O = conf_reader->get_int ("num_of_O");
@@ -543,7 +554,7 @@ MNM_IO::build_graph (const std::string &file_folder,
   std::string _network_name = conf_reader->get_string ("network_name");
   std::string _graph_file_name = file_folder + "/" + _network_name;
   std::ifstream _graph_file;
-  _graph_file.open (_graph_file_name, std::ios::in);
+  open_input (_graph_file, _graph_file_name);
 
   TInt _num_of_link = conf_reader->get_int ("num_of_link");
 
@@ -601,7 +612,7 @@ MNM_IO::build_demand (const std::string &file_folder,
   /* find file */
   std::string _demand_file_name = file_folder + "/" + file_name;
   std::ifstream _demand_file;
-  _demand_file.open (_demand_file_name, std::ios::in);
+  open_input (_demand_file, _demand_file_name);
 
   /* read config */
   TInt _max_interval = conf_reader->get_int ("max_interval");
@@ -840,9 +851,9 @@ MNM_IO::load_path_table (const std::string &file_name,
   if (w_buffer)
     {
       _buffer_file_name = file_name + "_buffer";
-      _buffer_file.open (_buffer_file_name, std::ios::in);
+      open_input (_buffer_file, _buffer_file_name);
     }
-  _path_table_file.open (file_name, std::ios::in);
+  open_input (_path_table_file, file_name);
   Path_Table *_path_table = new Path_Table ();
 
   /* read file */
diff --git a/src/io.h b/src/io.h
index 796b91a..41e4b3c 100644
--- a/src/io.h
+++ b/src/io.h
@@ -105,6 +105,10 @@ public:
                                     MNM_OD_Factory *od_factory,
                                     const std::string &file_name = "MNM_input_od_td_adaptive_ratio");
 
+  // Open an input file that cannot be done without. Failing to open it, or to
+  // read as many lines from it as the configuration calls for, is an error.
+  static void open_input (std::ifstream &file, const std::string &file_name);
+
   // private:
   static std::vector<std::string> split (const std::string &text, char sep);
   static std::string inline &ltrim (std::string &s)
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index e8e8349..669de66 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3577,7 +3577,7 @@ MNM_IO_Multiclass::build_node_factory_multiclass (
   /* find file */
   std::string _node_file_name = file_folder + "/" + file_name;
   std::ifstream _node_file;
-  _node_file.open (_node_file_name, std::ios::in);
+  open_input (_node_file, _node_file_name);
 
   /* read config */
   TInt _num_of_node = conf_reader->get_int ("num_of_node");
@@ -3653,7 +3653,7 @@ MNM_IO_Multiclass::build_link_factory_multiclass (
   /* find file */
   std::string _link_file_name = file_folder + "/" + file_name;
   std::ifstream _link_file;
-  _link_file.open (_link_file_name, std::ios::in);
+  open_input (_link_file, _link_file_name);
 
   /* read config */
   TInt _num_of_link = conf_reader->get_int ("num_of_link");
@@ -3789,7 +3789,7 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
   /* find file */
   std::string _demand_file_name = file_folder + "/" + file_name;
   std::ifstream _demand_file;
-  _demand_file.open (_demand_file_name, std::ios::in);
+  open_input (_demand_file, _demand_file_name);
 
   /* read config */
   TFlt _flow_scalar = conf_reader->get_float ("flow_scalar");
-- 
2.43.0


From a69490a1ffabe4572086a632dd7169fa32d48765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:36 +0000
Subject: [PATCH 10/32] fix: reject OD and graph rows that cannot be used

Rows with the wrong number of fields were skipped silently, and a node of
another type was cast to an origin or destination and written to.
---
 src/io.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 47875ad..dd63e02 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -238,9 +238,16 @@ MNM_IO::build_od_factory (const std::string &file_folder,
 
               /* hook up */
               _origin->m_origin_node
-                = (MNM_DMOND *) node_factory->get_node (_node_ID);
-              ((MNM_DMOND *) node_factory->get_node (_node_ID))
-                ->hook_up_origin (_origin);
+                = dynamic_cast<MNM_DMOND *> (node_factory->get_node (_node_ID));
+              if (_origin->m_origin_node == nullptr)
+                {
+                  throw std::runtime_error ("not an origin node: " + _words[1]);
+                }
+              _origin->m_origin_node->hook_up_origin (_origin);
+            }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
             }
         }
 
@@ -263,9 +270,17 @@ MNM_IO::build_od_factory (const std::string &file_folder,
               _dest->m_flow_scalar = _flow_scalar;
               /* hook up */
               _dest->m_dest_node
-                = (MNM_DMDND *) node_factory->get_node (_node_ID);
-              ((MNM_DMDND *) node_factory->get_node (_node_ID))
-                ->hook_up_destination (_dest);
+                = dynamic_cast<MNM_DMDND *> (node_factory->get_node (_node_ID));
+              if (_dest->m_dest_node == nullptr)
+                {
+                  throw std::runtime_error ("not a destination node: "
+                                            + _words[1]);
+                }
+              _dest->m_dest_node->hook_up_destination (_dest);
+            }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
             }
         }
     }
@@ -599,6 +614,10 @@ MNM_IO::build_graph (const std::string &file_folder,
             }
           _graph.add_link (_from_ID, _to_ID, _link_ID);
         }
+      else
+        {
+          throw std::runtime_error ("failed to parse line: " + _line);
+        }
     }
   assert ((std::ptrdiff_t) _graph.size_links () == _num_of_link);
   return _graph;
-- 
2.43.0


From c17a104ee2464ae2a14103bb5c96e12bfec71d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:54 +0000
Subject: [PATCH 11/32] fix: reject path tables that do not describe the
 network

A row with a single node was skipped, two consecutive nodes without a link
between them reused the previous link, blank lines of the buffer file were
tested on the wrong line, and an OD pair without paths was dereferenced.
---
 src/io.cpp      | 13 ++++++++++++-
 src/routing.cpp |  6 +++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index dd63e02..6152b3a 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -901,7 +901,7 @@ MNM_IO::load_path_table (const std::string &file_name,
                 {
                   std::getline (_buffer_file, _buffer_line);
                   _buffer_line = trim (_buffer_line);
-                  if (!_line.empty () && _line[0] != '#')
+                  if (!_buffer_line.empty () && _buffer_line[0] != '#')
                     {
                       break;
                     }
@@ -942,6 +942,7 @@ MNM_IO::load_path_table (const std::string &file_name,
                 {
                   _from_ID = _path->m_node_vec[j];
                   _to_ID = _path->m_node_vec[j + 1];
+                  bool _connected = false;
                   for (auto &&c : graph.connections (graph.get_node (_from_ID),
                                                      Direction::Outgoing))
                     {
@@ -949,9 +950,15 @@ MNM_IO::load_path_table (const std::string &file_name,
                           == _to_ID)
                         {
                           _link_ID = graph.get_id (c);
+                          _connected = true;
                           break;
                         }
                     };
+                  if (!_connected)
+                    {
+                      throw std::runtime_error ("path without a link: "
+                                                + _line);
+                    }
                   _path->m_link_vec.push_back (_link_ID);
                 }
 
@@ -971,6 +978,10 @@ MNM_IO::load_path_table (const std::string &file_name,
                 ->second->find (_dest_node_ID)
                 ->second->m_path_vec.push_back (_path);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
       _path_table_file.close ();
       if (w_buffer)
diff --git a/src/routing.cpp b/src/routing.cpp
index 1188a25..23fbfc4 100644
--- a/src/routing.cpp
+++ b/src/routing.cpp
@@ -569,9 +569,9 @@ MNM_Routing_Fixed::register_veh (MNM_Veh *veh, bool track)
   // printf("%d\n", veh -> get_origin() -> m_origin_node  -> m_node_ID);
   // printf("%d\n", veh -> get_destination() -> m_dest_node  -> m_node_ID);
   MNM_Pathset *_pathset
-    = m_path_table->find (veh->get_origin ()->m_origin_node->m_node_ID)
-        ->second->find (veh->get_destination ()->m_dest_node->m_node_ID)
-        ->second;
+    = MNM::get_pathset (m_path_table,
+                        veh->get_origin ()->m_origin_node->m_node_ID,
+                        veh->get_destination ()->m_dest_node->m_node_ID);
   MNM_Path *_route_path = nullptr;
   // printf("1\n");
   // note m_path_vec is an ordered vector, not unordered
-- 
2.43.0


From ed76da2b2ee697aba379c9b3d7a8dfc18484ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:41 +0000
Subject: [PATCH 12/32] fix: report read errors in the configuration and
 optional input files

An I/O error was taken for the end of the file, so the loading went on with
part of the configuration, and a label or toll file with too few rows had
its last row applied more than once.
---
 src/io.cpp         | 6 ++++++
 src/multiclass.cpp | 5 +++++
 src/ults.cpp       | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 6152b3a..f2ab366 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -451,6 +451,7 @@ MNM_IO::read_origin_vehicle_label_ratio (const std::string &file_folder,
   std::vector<std::string> _words;
   if (_file.is_open ())
     {
+      _file.exceptions (std::ios::failbit | std::ios::badbit);
       /* read config */
       TInt _num_of_O = conf_reader->get_int ("num_of_O");
       TInt _num_of_vehicle_labels
@@ -509,6 +510,7 @@ MNM_IO::read_vehicle_tracking_setting (
 
   if (_od_pair_tracked_file.is_open ())
     {
+      _od_pair_tracked_file.exceptions (std::ios::badbit);
       std::getline (_od_pair_tracked_file, _line);
       while (std::getline (_od_pair_tracked_file, _line))
         {
@@ -539,6 +541,7 @@ MNM_IO::read_vehicle_tracking_setting (
 
   if (_interval_tracked_file.is_open ())
     {
+      _interval_tracked_file.exceptions (std::ios::badbit);
       std::getline (_interval_tracked_file, _line);
       while (std::getline (_interval_tracked_file, _line))
         {
@@ -705,6 +708,7 @@ int MNM_IO::build_td_adaptive_ratio (const std::string &file_folder,
   std::vector<std::string> _words;
   if (_ratio_file.is_open ())
     {
+      _ratio_file.exceptions (std::ios::badbit);
       // printf("Start build demand profile.\n");
       double *_ratio_vector = new double[_max_interval]();
       std::getline (_ratio_file, _line);
@@ -769,6 +773,7 @@ MNM_IO::build_link_td_attribute (const std::string &file_folder,
 
   if (_file.is_open ())
     {
+      _file.exceptions (std::ios::badbit);
       printf ("Start build time-dependent link attribute.\n");
       std::getline (_file, _line); // #link_ID toll_car toll_truck
       int i = 0;
@@ -1241,6 +1246,7 @@ MNM_IO::build_link_toll (const std::string &file_folder,
 
   if (_file.is_open ())
     {
+      _file.exceptions (std::ios::failbit | std::ios::badbit);
       TInt _num_of_tolled_link = conf_reader->get_int ("num_of_tolled_link");
       if (_num_of_tolled_link <= 0)
         {
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 669de66..2860b7f 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3934,6 +3934,7 @@ MNM_IO_Multiclass::build_td_adaptive_ratio (const std::string &file_folder,
   std::vector<std::string> _words;
   if (_ratio_file.is_open ())
     {
+      _ratio_file.exceptions (std::ios::badbit);
       // printf("Start build demand profile.\n");
       TFlt *_ratio_vector_car = new double[_max_interval * _num_of_minute]();
       TFlt *_ratio_vector_truck = new double[_max_interval * _num_of_minute]();
@@ -4009,6 +4010,7 @@ MNM_IO_Multiclass::read_origin_car_label_ratio (const std::string &file_folder,
   std::vector<std::string> _words;
   if (_file.is_open ())
     {
+      _file.exceptions (std::ios::failbit | std::ios::badbit);
       /* read config */
       TInt _num_of_O = conf_reader->get_int ("num_of_O");
       TInt _num_of_vehicle_labels = conf_reader->get_int ("num_of_car_labels");
@@ -4065,6 +4067,7 @@ MNM_IO_Multiclass::read_origin_truck_label_ratio (
   std::vector<std::string> _words;
   if (_file.is_open ())
     {
+      _file.exceptions (std::ios::failbit | std::ios::badbit);
       /* read config */
       TInt _num_of_O = conf_reader->get_int ("num_of_O");
       TInt _num_of_vehicle_labels
@@ -4122,6 +4125,7 @@ MNM_IO_Multiclass::build_link_toll_multiclass (const std::string &file_folder,
 
   if (_file.is_open ())
     {
+      _file.exceptions (std::ios::failbit | std::ios::badbit);
       TInt _num_of_tolled_link = conf_reader->get_int ("num_of_tolled_link");
       if (_num_of_tolled_link <= 0)
         {
@@ -4200,6 +4204,7 @@ MNM_IO_Multiclass::build_link_td_attribute (const std::string &file_folder,
 
   if (_file.is_open ())
     {
+      _file.exceptions (std::ios::badbit);
       printf ("Start build time-dependent link attribute.\n");
       std::getline (_file, _line); // #link_ID toll_car toll_truck
       int i = 0;
diff --git a/src/ults.cpp b/src/ults.cpp
index 3a7ad46..ec2a5df 100644
--- a/src/ults.cpp
+++ b/src/ults.cpp
@@ -233,6 +233,8 @@ ConfigFile::ConfigFile (std::string const &configFile)
           content_[inSection + '/' + name] = Chameleon (value);
         }
     }
+  if (file.bad ())
+    throw std::runtime_error ("failed to read file: " + configFile);
 }
 
 Chameleon const &
-- 
2.43.0


From 313ba7d15c2d35b5dc46f957ee44556f0ab7e5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:45 +0000
Subject: [PATCH 13/32] fix: reject configuration entries without a value

A line without '=' was its own value, and text that is not a number was
read as 0, which ends in a division by zero for the frequencies.
---
 src/ults.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ults.cpp b/src/ults.cpp
index ec2a5df..3cd8320 100644
--- a/src/ults.cpp
+++ b/src/ults.cpp
@@ -185,7 +185,14 @@ Chameleon::operator= (std::string const &s)
 
 Chameleon::operator std::string () const { return value_; }
 
-Chameleon::operator double () const { return atof (value_.c_str ()); }
+Chameleon::operator double () const
+{
+  char *end;
+  double d = strtod (value_.c_str (), &end);
+  if (end == value_.c_str ())
+    throw std::invalid_argument ("not a number: " + value_);
+  return d;
+}
 
 std::string
 trim (std::string const &source, char const *delims = " \t\r\n")
@@ -228,6 +235,8 @@ ConfigFile::ConfigFile (std::string const &configFile)
           continue;
         default:
           posEqual = line.find ('=');
+          if (posEqual < 0)
+            throw std::invalid_argument ("failed to parse line: " + line);
           name = trim (line.substr (0, posEqual));
           value = trim (line.substr (posEqual + 1));
           content_[inSection + '/' + name] = Chameleon (value);
-- 
2.43.0


From 7a004293dde47b026be02f2e95c8dad407282fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:52 +0000
Subject: [PATCH 14/32] fix: report read errors in the list of emission links

---
 src/dta.cpp        | 1 +
 src/multiclass.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/dta.cpp b/src/dta.cpp
index d6c56e2..335cafe 100644
--- a/src/dta.cpp
+++ b/src/dta.cpp
@@ -519,6 +519,7 @@ MNM_Dta::pre_loading ()
 
   // https://stackoverflow.com/questions/7443787/using-c-ifstream-extraction-operator-to-read-formatted-data-from-a-file
   std::ifstream _emission_file (m_file_folder + "/MNM_input_emission_linkID");
+  _emission_file.exceptions (std::ios::badbit);
   int _link_ID;
   std::unordered_map<int, int> _emission_links = {};
   while (_emission_file >> _link_ID)
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 2860b7f..41b1a45 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4463,6 +4463,7 @@ MNM_Dta_Multiclass::pre_loading ()
 
   // https://stackoverflow.com/questions/7443787/using-c-ifstream-extraction-operator-to-read-formatted-data-from-a-file
   std::ifstream _emission_file (m_file_folder + "/MNM_input_emission_linkID");
+  _emission_file.exceptions (std::ios::badbit);
   int _link_ID;
   std::unordered_map<int, int> _emission_links = {};
   while (_emission_file >> _link_ID)
-- 
2.43.0


From 807c704782d54d01dd3fa5a90a5e235facbd71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:05 +0000
Subject: [PATCH 15/32] fix: densities of multi-lane two-class LQ links are
 link totals

---
 src/multiclass.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 41b1a45..4c5682c 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1855,8 +1855,7 @@ MNM_Dlink_Lq_Multiclass::get_link_tt ()
 {
   // For adaptive routing and emissions, need modification for multiclass cases
   TFlt _cost, _spd;
-  TFlt _rho = get_link_flow () / m_number_of_lane
-              / m_length; // get the density in veh/mile
+  TFlt _rho = get_link_flow () / m_length; // all lanes, like m_k_j_car
   TFlt _rhoj = m_k_j_car; // get the jam density
   TFlt _rhok = m_k_C_car; // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
@@ -1885,9 +1884,9 @@ TFlt
 MNM_Dlink_Lq_Multiclass::get_link_tt_from_flow_car (TFlt flow)
 {
   TFlt _cost, _spd;
-  TFlt _rho = flow / m_number_of_lane / m_length; // get the density in veh/mile
-  TFlt _rhoj = m_k_j_car;                         // get the jam density
-  TFlt _rhok = m_k_C_car;                         // get the critical density
+  TFlt _rho = flow / m_length; // all lanes, like m_k_j_car
+  TFlt _rhoj = m_k_j_car;      // get the jam density
+  TFlt _rhok = m_k_C_car;      // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
   if (_rho >= _rhoj)
     {
@@ -1914,9 +1913,9 @@ TFlt
 MNM_Dlink_Lq_Multiclass::get_link_tt_from_flow_truck (TFlt flow)
 {
   TFlt _cost, _spd;
-  TFlt _rho = flow / m_number_of_lane / m_length; // get the density in veh/mile
-  TFlt _rhoj = m_k_j_truck;                       // get the jam density
-  TFlt _rhok = m_k_C_truck;                       // get the critical density
+  TFlt _rho = flow / m_length; // all lanes, like m_k_j_truck
+  TFlt _rhoj = m_k_j_truck;    // get the jam density
+  TFlt _rhok = m_k_C_truck;    // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
   if (_rho >= _rhoj)
     {
-- 
2.43.0


From 58715a8c176305bec5b4648ab93aa6d9e6a3dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:39 +0000
Subject: [PATCH 16/32] fix: time-dependent tolls keep their fraction

---
 src/io.cpp         | 2 +-
 src/multiclass.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index f2ab366..b2ca019 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -795,7 +795,7 @@ MNM_IO::build_link_td_attribute (const std::string &file_folder,
               _lane_hold_cap = TFlt (
                 std::stod (_words[6])); // jam density (vehicles/mile/lane)
               _number_of_lane = TInt (std::stoi (_words[7]));
-              _toll = TFlt (std::stoi (_words[8]));
+              _toll = TFlt (std::stod (_words[8]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 4c5682c..7e47ae7 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4230,7 +4230,7 @@ MNM_IO_Multiclass::build_link_td_attribute (const std::string &file_folder,
               _lane_flow_cap_truck = TFlt (std::stod (_words[9]));
               _lane_hold_cap_truck = TFlt (std::stod (_words[10]));
               _veh_convert_factor = TFlt (std::stod (_words[11]));
-              _toll = TFlt (std::stoi (_words[12]));
+              _toll = TFlt (std::stod (_words[12]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
-- 
2.43.0


From 305f475e95a3feb3e582df9221cab647a06cdad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:22 +0000
Subject: [PATCH 17/32] fix: releasing shortest-path trees does not read the
 released graph

---
 src/shortest_path.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 80979b2..59dda76 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -569,14 +569,14 @@ MNM_TDSP_Tree::MNM_TDSP_Tree (TInt dest_node_ID, macposts::Graph &graph,
 
 MNM_TDSP_Tree::~MNM_TDSP_Tree ()
 {
-  TInt _node_ID;
-  for (const auto &n : m_graph.nodes ())
+  // m_graph may already be gone
+  for (const auto &_it : m_dist)
     {
-      _node_ID = m_graph.get_id (n);
-      if (m_dist[_node_ID] != nullptr)
-        delete m_dist[_node_ID];
-      if (m_tree[_node_ID] != nullptr)
-        delete m_tree[_node_ID];
+      delete[] _it.second;
+    }
+  for (const auto &_it : m_tree)
+    {
+      delete[] _it.second;
     }
   m_dist.clear ();
   m_tree.clear ();
-- 
2.43.0


From 44c08b7b1dbd8989245c40bdbc7db8059202697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:34 +0000
Subject: [PATCH 18/32] fix: keep a fractional flow scalar in totals as in the
 network

The network is built with flow_scalar read as a floating-point number, but the
loading itself read it as an integer, so that trip totals, travel stats and
assignment ratios of a run with flow_scalar = 2.5 were divided by 2 (and with
0.5 by 0).
---
 src/dta.cpp        | 2 +-
 src/multiclass.cpp | 2 +-
 src/multimodal.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dta.cpp b/src/dta.cpp
index 335cafe..e21eeea 100644
--- a/src/dta.cpp
+++ b/src/dta.cpp
@@ -86,7 +86,7 @@ MNM_Dta::initialize ()
   m_od_factory = new MNM_OD_Factory ();
   m_config = new MNM_ConfReader (m_file_folder + "/config.conf", "DTA");
   m_unit_time = m_config->get_int ("unit_time");
-  m_flow_scalar = m_config->get_int ("flow_scalar");
+  m_flow_scalar = m_config->get_float ("flow_scalar");
   TInt _ev_label;
   try
     {
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 7e47ae7..5845fa1 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4353,7 +4353,7 @@ MNM_Dta_Multiclass::initialize ()
   // printf("4\n");
   m_config = new MNM_ConfReader (m_file_folder + "/config.conf", "DTA");
   m_unit_time = m_config->get_int ("unit_time");
-  m_flow_scalar = m_config->get_int ("flow_scalar");
+  m_flow_scalar = m_config->get_float ("flow_scalar");
   // printf("5\n");
   TInt _ev_label_car, _ev_label_truck;
   try
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index d397d07..289fc3e 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -9514,7 +9514,7 @@ MNM_Dta_Multimodal::initialize ()
 
   m_config = new MNM_ConfReader (m_file_folder + "/config.conf", "DTA");
   m_unit_time = m_config->get_int ("unit_time");
-  m_flow_scalar = m_config->get_int ("flow_scalar");
+  m_flow_scalar = m_config->get_float ("flow_scalar");
 
   m_passenger_factory = new MNM_Passenger_Factory ();
   m_veh_factory
-- 
2.43.0


From b8bc16c08776b8cb87ec331e83bd25ecd5eec09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:53 +0000
Subject: [PATCH 19/32] fix: paths generated to cover a link at an origin or
 destination use that one

A link leaving an origin node (or entering a destination node) needs no
search on that side, and the search tree stayed empty; looking up an
arbitrary origin in it read past its end, and any origin could be taken.
---
 macposts/_ext/dta.cpp   | 25 ++++++++++++++-------
 macposts/_ext/mcdta.cpp | 50 ++++++++++++++++++++++++++++-------------
 2 files changed, 51 insertions(+), 24 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 03d9f20..0b65c11 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1488,14 +1488,23 @@ Dta::generate_paths_to_cover_registered_links ()
               for (auto _it_it : pair_ptrs_2)
                 {
                   _dest = _it_it.first;
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  // an empty tree means that the link itself starts at an origin or
+                  // ends at a destination: no other one will do
+                  bool _from_ok
+                    = _shortest_path_tree.empty ()
+                        ? _origin->m_origin_node->m_node_ID == _from_node_ID
+                        : _shortest_path_tree
+                              .find (_origin->m_origin_node->m_node_ID)
+                              ->second
+                            != -1;
+                  bool _to_ok
+                    = _shortest_path_tree_reversed.empty ()
+                        ? _dest->m_dest_node->m_node_ID == _to_node_ID
+                        : _shortest_path_tree_reversed
+                              .find (_dest->m_dest_node->m_node_ID)
+                              ->second
+                            != -1;
+                  if (_from_ok && _to_ok)
                     {
                       _flg = true;
                       break;
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index f7b8572..91b26b1 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -2595,14 +2595,23 @@ Mcdta::generate_paths_to_cover_registered_links ()
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  // an empty tree means that the link itself starts at an origin or
+                  // ends at a destination: no other one will do
+                  bool _from_ok
+                    = _shortest_path_tree.empty ()
+                        ? _origin->m_origin_node->m_node_ID == _from_node_ID
+                        : _shortest_path_tree
+                              .find (_origin->m_origin_node->m_node_ID)
+                              ->second
+                            != -1;
+                  bool _to_ok
+                    = _shortest_path_tree_reversed.empty ()
+                        ? _dest->m_dest_node->m_node_ID == _to_node_ID
+                        : _shortest_path_tree_reversed
+                              .find (_dest->m_dest_node->m_node_ID)
+                              ->second
+                            != -1;
+                  if (_from_ok && _to_ok)
                     {
                       _flg = true;
                       break;
@@ -2832,14 +2841,23 @@ Mcdta::generate_paths_to_cover_links (py::array_t<int> links, int max_iter)
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  // an empty tree means that the link itself starts at an origin or
+                  // ends at a destination: no other one will do
+                  bool _from_ok
+                    = _shortest_path_tree.empty ()
+                        ? _origin->m_origin_node->m_node_ID == _from_node_ID
+                        : _shortest_path_tree
+                              .find (_origin->m_origin_node->m_node_ID)
+                              ->second
+                            != -1;
+                  bool _to_ok
+                    = _shortest_path_tree_reversed.empty ()
+                        ? _dest->m_dest_node->m_node_ID == _to_node_ID
+                        : _shortest_path_tree_reversed
+                              .find (_dest->m_dest_node->m_node_ID)
+                              ->second
+                            != -1;
+                  if (_from_ok && _to_ok)
                     {
                       _flg = true;
                       break;
-- 
2.43.0


From ab1b598453c275943aef1b7b097c19c5a1dacd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:04 +0000
Subject: [PATCH 20/32] fix: generate_paths_to_cover_links covers the links it
 was given

The end points were taken from the registered links (at the same position,
possibly past their end) instead of from the links passed in.
---
 macposts/_ext/mcdta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 91b26b1..ef3cad2 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -2768,7 +2768,7 @@ Mcdta::generate_paths_to_cover_links (py::array_t<int> links, int max_iter)
   for (int i = 0; i < num_links; ++i)
     {
       // generate new path including this link
-      auto &&sd = m_mcdta->m_graph.get_endpoints (m_link_vec[i]->m_link_ID);
+      auto &&sd = m_mcdta->m_graph.get_endpoints (links_ptr[i]);
       _from_node_ID = m_mcdta->m_graph.get_id (sd.first);
       _to_node_ID = m_mcdta->m_graph.get_id (sd.second);
 
-- 
2.43.0


From 78168557fd16d9afedd16cb51bf833350c452c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:34 +0000
Subject: [PATCH 21/32] fix: equilibrium iterations size the link cost tables
 for each loading

---
 macposts/_ext/dta.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 0b65c11..4bbf6cd 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -65,6 +65,7 @@ public:
   int save_path_table (const std::string &folder);
   int get_cur_loading_interval ();
   int build_link_cost_map (bool with_congestion_indicator = false);
+  void clear_link_cost_map ();
   int get_link_queue_dissipated_time ();
   py::array_t<double> get_link_inflow (py::array_t<int> start_intervals,
                                        py::array_t<int> end_intervals);
@@ -410,6 +411,8 @@ Dta::run_due (int max_iter, const std::string &folder, bool verbose,
         = nullptr;
       delete m_dta;
       m_dta = nullptr;
+      // the next loading may have more intervals
+      clear_link_cost_map ();
     }
 
   _gap_file.close ();
@@ -515,6 +518,8 @@ Dta::run_dso (int max_iter, const std::string &folder, bool verbose,
         = nullptr;
       delete m_dta;
       m_dta = nullptr;
+      // the next loading may have more intervals
+      clear_link_cost_map ();
     }
 
   _gap_file.close ();
@@ -979,6 +984,26 @@ Dta::print_simulation_results (const std::string &folder, int cong_frequency)
   return 0;
 }
 
+void
+Dta::clear_link_cost_map ()
+{
+  for (auto _it : m_link_tt_map)
+    {
+      delete[] _it.second;
+    }
+  m_link_tt_map.clear ();
+  for (auto _it : m_link_cost_map)
+    {
+      delete[] _it.second;
+    }
+  m_link_cost_map.clear ();
+  for (auto _it : m_link_congested)
+    {
+      delete[] _it.second;
+    }
+  m_link_congested.clear ();
+}
+
 int
 Dta::build_link_cost_map (bool with_congestion_indicator)
 {
-- 
2.43.0


From e223ed19dfc749c11c2060ba469c8be2be6aa366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:56 +0000
Subject: [PATCH 22/32] fix: a new route of the departure-time equilibrium
 takes no more flow than there is

---
 src/due.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index d4fa8ed..bd0b272 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -646,14 +646,17 @@ MNM_Due_Msa::update_path_table (MNM_Dta *dta, int iter)
 
               // Original
               _path->allocate_buffer (m_total_assign_inter);
-              _path->m_buffer[_best_assign_col]
-                += m_step_size / TFlt (iter + 1);
               _len = TFlt (_path_set->m_path_vec.size ());
               for (auto tmp_path : _path_set->m_path_vec)
                 {
-                  tmp_path->m_buffer[_best_assign_col]
-                    -= m_step_size / TFlt (iter + 1) / _len;
+                  // a path cannot give away more than it carries
+                  _tmp_change
+                    = std::min (tmp_path->m_buffer[_best_assign_col],
+                                m_step_size / TFlt (iter + 1) / _len);
+                  tmp_path->m_buffer[_best_assign_col] -= _tmp_change;
+                  _tot_change += _tmp_change;
                 }
+              _path->m_buffer[_best_assign_col] += _tot_change;
               _path_set->m_path_vec.push_back (_path);
 
               // Modified by Zou
-- 
2.43.0


From 153411c38eb97fa5a2ce647d119984a04b8237d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:15 +0000
Subject: [PATCH 23/32] fix: gradient projection conserves demand when the new
 route is worse than average

---
 src/due.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index bd0b272..99950c8 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -808,7 +808,8 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
   MNM_Path *_path;
   MNM_Pathset *_path_set;
   TFlt _tot_path_cost, _tmp_change, _tau, _tmp_tt, _tmp_cost, _min_flow;
-  bool _exist, _flg;
+  TFlt _unused_cost;
+  bool _exist, _flg, _unused, _skip;
 
   // assume build_link_cost_map(dta) and update_path_table_cost(dta) are invoked
   // beforehand
@@ -854,6 +855,8 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
               _flg = false;
               _min_flow = TFlt (std::numeric_limits<double>::max ());
               _tmp_change = 0.0;
+              _unused = false;
+              _unused_cost = 0.0;
               if (_path_set->is_in (_path))
                 {
                   printf ("Update current pathset\n");
@@ -886,6 +889,12 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
                       _tmp_cost = _tmp_path->m_travel_disutility_vec[_col];
                       printf ("path in pathset, disutility %lf\n",
                               (TFlt) _tmp_cost);
+                      if (_tmp_path->m_buffer[_col] <= 0)
+                        {
+                          _unused = true;
+                          _unused_cost = _tmp_cost;
+                          continue;
+                        }
                       _tot_path_cost += _tmp_cost;
                       _tot_nonzero_path += 1;
                       if ((_tmp_path->m_buffer[_col] > 0)
@@ -895,11 +904,20 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
                         }
                     }
                 }
+              // an unused route above the average cost has no flow to give
+              _skip = _unused && _tot_nonzero_path > 0
+                      && _unused_cost * _tot_nonzero_path > _tot_path_cost;
+              if (_unused && !_skip)
+                {
+                  _tot_path_cost += _unused_cost;
+                  _tot_nonzero_path += 1;
+                }
               IAssert (_tot_nonzero_path > 0);
               // minimum tau
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                  if ((!_skip && *_tmp_path == *_path)
+                      || (_tmp_path->m_buffer[_col] > 0))
                     {
                       // _tmp_tt = get_tt(_col *
                       // m_dta_config->get_int("assign_frq"), _tmp_path);
@@ -931,7 +949,8 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
               // flow adjustment
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                  if ((!_skip && *_tmp_path == *_path)
+                      || (_tmp_path->m_buffer[_col] > 0))
                     {
                       // _tmp_tt = get_tt(_col *
                       // m_dta_config->get_int("assign_frq"), _tmp_path);
-- 
2.43.0


From a8b3cb049cba169bcdd1b3bc68b23dac33a81dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:45 +0000
Subject: [PATCH 24/32] sim: the same guarded hook in MNM_Dta_EV::load_once
 (MACPOSTS_SIM, off by default)

---
 src/ev_traffic.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 0a9f22f..8c6e011 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -2,6 +2,11 @@
 
 using macposts::graph::Direction;
 
+#ifdef MACPOSTS_SIM
+// Simulation seam, see MNM_Dta::load_once.
+void macposts_sim_tick (MNM_Dta *dta, int interval);
+#endif
+
 //#################################################################
 //                       Electrified Vehicle
 //#################################################################
@@ -2255,5 +2260,8 @@ MNM_Dta_EV::load_once (bool verbose, TInt load_int, TInt assign_int)
   // test();
   // consistent with loading()
   m_current_loading_interval = load_int + 1;
+#ifdef MACPOSTS_SIM
+  macposts_sim_tick (this, load_int);
+#endif
   return 0;
 }
-- 
2.43.0


From ad6ba359381e70497e30b15291e3bf70fdeb329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:45 +0000
Subject: [PATCH 25/32] fix: a delivery tour ends at its last stop, not at an
 earlier visit of the same place

---
 src/delivery_traffic.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/delivery_traffic.cpp b/src/delivery_traffic.cpp
index 888993e..c81abe4 100644
--- a/src/delivery_traffic.cpp
+++ b/src/delivery_traffic.cpp
@@ -336,8 +336,9 @@ MNM_Destination_Delivery::receive (TInt current_interval)
       if (auto _veh_deliver = dynamic_cast<MNM_Veh_Delivery *> (_veh))
         {
           if (_veh_deliver->m_multi_od_seq != nullptr
-              && _veh_deliver->m_multi_od_seq->back ().second
-                   != _veh_deliver->get_current_od ().second)
+              && _veh_deliver->m_current_OD_index
+                   < (std::ptrdiff_t) _veh_deliver->m_multi_od_seq->size ()
+                       - 1)
             {
               Assert (_veh_deliver->get_current_od ().second == this);
               _veh_deliver->move_to_next_od ();
@@ -391,8 +392,9 @@ MNM_Destination_Delivery::receive (TInt current_interval, MNM_Routing *routing,
       if (auto _veh_deliver = dynamic_cast<MNM_Veh_Delivery *> (_veh))
         {
           if (_veh_deliver->m_multi_od_seq != nullptr
-              && _veh_deliver->m_multi_od_seq->back ().second
-                   != _veh_deliver->get_current_od ().second)
+              && _veh_deliver->m_current_OD_index
+                   < (std::ptrdiff_t) _veh_deliver->m_multi_od_seq->size ()
+                       - 1)
             {
               Assert (_veh_deliver->get_current_od ().second == this);
               _veh_deliver->move_to_next_od ();
-- 
2.43.0


From 245ccd08f9b14f5c15a9ec06362f99838ad035ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:45 +0000
Subject: [PATCH 26/32] fix: an electric vehicle on its way to a charging
 station goes on to it

---
 src/ev_traffic.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 8c6e011..61555cb 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -33,9 +33,10 @@ MNM_Veh_Electrified::need_charging ()
 {
   if (m_using_roadside_charging)
     {
-      if (m_miles_traveled <= 0.)
+      if (m_miles_traveled <= 0. || m_charging_station != nullptr)
         {
-          // vehicle with single OD pair just being released
+          // vehicle with single OD pair just being released, or on its way to
+          // the charging station chosen for it
           return true;
         }
       if (m_current_range - m_miles_traveled_after_charging
-- 
2.43.0


From b6992e2bf07045065e1ab9e3f69af2f3029504ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:45 +0000
Subject: [PATCH 27/32] fix: the routing type of an electric tour is drawn once
 for each trip

---
 src/ev_traffic.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 61555cb..e9dec31 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -208,9 +208,12 @@ MNM_Origin_EV::~MNM_Origin_EV () { ; }
 int
 MNM_Origin_EV::adjust_multi_OD_seq_veh_routing_type (TFlt adaptive_ratio)
 {
-  // multiOD seq vehicle from other origins
+  // multiOD seq vehicle from other origins, once for each trip: a vehicle which
+  // waits here after being routed keeps its routing type
   for (auto _it : m_origin_node->m_in_veh_queue)
     {
+      if (_it->get_next_link () != nullptr)
+        continue;
       if (auto _veh_elec = dynamic_cast<MNM_Veh_Electrified_Delivery *> (_it))
         {
           Assert (_veh_elec->m_multi_od_seq != nullptr);
-- 
2.43.0


From b9d7e9cfaef69469e624804fe0db000fd0a838cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:45 +0000
Subject: [PATCH 28/32] fix: charging stations draw from the seeded random
 stream

---
 src/ev_traffic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index e9dec31..140fee6 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -575,8 +575,8 @@ MNM_Charging_Station::evolve (TInt timestamp)
     }
 
   // shuffle the in links, reserve the FIFO
-  std::random_device rng; // random sequence
-  std::shuffle (_in_link_ind_array.begin (), _in_link_ind_array.end (), rng);
+  std::random_shuffle (_in_link_ind_array.begin (),
+                       _in_link_ind_array.end ());
 
   // move all in_link vehicles to queue, assuming unlimited waiting space
   for (size_t i : _in_link_ind_array)
-- 
2.43.0


From 40e83552a8c940a78366a5499f7ac2fc8f966af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:45 +0000
Subject: [PATCH 29/32] fix: tours and charging station choices do not depend
 on addresses

---
 src/delivery_traffic.cpp |  2 +-
 src/delivery_traffic.h   |  7 +++++--
 src/ev_traffic.cpp       | 23 +++++++++++++++--------
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/delivery_traffic.cpp b/src/delivery_traffic.cpp
index c81abe4..5b2e7a6 100644
--- a/src/delivery_traffic.cpp
+++ b/src/delivery_traffic.cpp
@@ -212,7 +212,7 @@ MNM_Origin_Delivery::add_multi_OD_seq_demand (
     {
       _demand[i] = TFlt (demand[i]);
     }
-  m_demand_multi_OD_seq.insert (std::make_pair (multi_od_seq, _demand));
+  m_demand_multi_OD_seq.push_back (std::make_pair (multi_od_seq, _demand));
   return 0;
 }
 
diff --git a/src/delivery_traffic.h b/src/delivery_traffic.h
index 0c076a1..483282c 100644
--- a/src/delivery_traffic.h
+++ b/src/delivery_traffic.h
@@ -68,8 +68,11 @@ public:
                                     TInt assign_interval,
                                     TFlt adaptive_ratio) override;
 
-  std::unordered_map<std::vector<std::pair<MNM_Origin *, MNM_Destination *>> *,
-                     TFlt *>
+  // in the order of the input file: the release order (and with it the use of
+  // the random stream) must not depend on where the sequences live in memory
+  std::vector<
+    std::pair<std::vector<std::pair<MNM_Origin *, MNM_Destination *>> *,
+              TFlt *>>
     m_demand_multi_OD_seq;
   // for delivery vehicles
   TInt m_pickup_waiting_time = 0;
diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 140fee6..33185ae 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -1414,14 +1414,21 @@ MNM_Routing_Adaptive_With_POIs::update_best_POI ()
   MNM_Path *_path;
   TFlt _path_cost, _current_best_path_cost;
   MNM_Dnode *_current_best_poi_node;
-  for (auto _it : *m_od_candidate_poi_table)
+  // in the order of the IDs, not of the table, which depends on addresses
+  for (auto _origin_it : m_od_factory->m_origin_map)
     {
-      _origin = _it.first;
-      for (auto _it_it : *(_it.second))
+      _origin = _origin_it.second;
+      auto _it = m_od_candidate_poi_table->find (_origin);
+      if (_it == m_od_candidate_poi_table->end ())
+        continue;
+      for (auto _dest_it : m_od_factory->m_destination_map)
         {
-          _dest = _it_it.first;
+          _dest = _dest_it.second;
+          auto _it_it = _it->second->find (_dest);
+          if (_it_it == _it->second->end ())
+            continue;
           _current_best_poi_node = nullptr;
-          if (_it_it.second->empty ())
+          if (_it_it->second->empty ())
             {
               // printf("MNM_Routing_Adaptive_With_POIs::update_best_POI, empty
               // candidate POI list\n"); exit(-1);
@@ -1430,9 +1437,9 @@ MNM_Routing_Adaptive_With_POIs::update_best_POI ()
               continue;
             }
           _current_best_path_cost = std::numeric_limits<double>::infinity ();
-          std::random_shuffle (std::begin (*(_it_it.second)),
-                               std::end (*(_it_it.second)));
-          for (auto _node : *(_it_it.second))
+          std::random_shuffle (std::begin (*(_it_it->second)),
+                               std::end (*(_it_it->second)));
+          for (auto _node : *(_it_it->second))
             {
               // mid_node to dest
               _shortest_path_tree = m_table->find (_dest)->second;
-- 
2.43.0


From 5e6076f5d6fdf96fb75fc952cc86f08ce401d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:50 +0000
Subject: [PATCH 30/32] fix: the lowest-cost path tree covers only the
 intervals that were simulated

---
 macposts/_ext/mcdta.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index ef3cad2..ad6de4b 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -1294,15 +1294,19 @@ Mcdta::update_tdsp_tree ()
   MNM_Destination *_dest;
   TInt _dest_node_ID;
   MNM_TDSP_Tree *_tdsp_tree;
+  // the link cost maps cover the simulated intervals only, which are fewer
+  // when the loading starts at a later assignment interval
+  int _num_interval
+    = std::min (m_mcdta->m_config->get_int ("assign_frq")
+                  * m_mcdta->m_config->get_int ("max_interval"),
+                int (get_cur_loading_interval ()));
 
   for (auto _d_it : m_mcdta->m_od_factory->m_destination_map)
     {
       _dest = _d_it.second;
       _dest_node_ID = _dest->m_dest_node->m_node_ID;
       _tdsp_tree
-        = new MNM_TDSP_Tree (_dest_node_ID, m_mcdta->m_graph,
-                             m_mcdta->m_config->get_int ("assign_frq")
-                               * m_mcdta->m_config->get_int ("max_interval"));
+        = new MNM_TDSP_Tree (_dest_node_ID, m_mcdta->m_graph, _num_interval);
       _tdsp_tree->initialize ();
       _tdsp_tree->update_tree (m_link_cost_map, m_link_tt_map);
       m_tdsp_tree_map.insert (
-- 
2.43.0


From c00ef03bcbf53a677afce6ba5dc283918b066eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 31/32] fix: a td cost file that is cut short or unreadable
 raises instead of repeating a row

---
 src/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index b2ca019..4d55cb0 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -1319,7 +1319,7 @@ MNM_IO::read_td_link_cost (const std::string &file_folder,
   /* find file */
   std::string _file_name = file_folder + "/" + file_name;
   std::ifstream _file;
-  _file.open (_file_name, std::ios::in);
+  open_input (_file, _file_name);
 
   std::string _line;
   std::vector<std::string> _words;
@@ -1386,7 +1386,7 @@ MNM_IO::read_td_node_cost (
   /* find file */
   std::string _file_name = file_folder + "/" + file_name;
   std::ifstream _file;
-  _file.open (_file_name, std::ios::in);
+  open_input (_file, _file_name);
 
   std::string _line;
   std::vector<std::string> _words;
-- 
2.43.0


From 043ea1c8d98f024fc8fd0b27f495cc0eab61b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 32/32] fix: turn delays count when a time-dependent route
 passes its origin again

---
 src/shortest_path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 59dda76..33ca9de 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -843,7 +843,7 @@ MNM_TDSP_Tree::get_tdsp (
         }
       path->m_link_vec.push_back (_cur_link_ID);
       // first node cost, then link cost
-      if (_cur_node_ID != src_node_ID && path->m_link_vec.size () >= 2
+      if (path->m_link_vec.size () >= 2
           && node_tt_map.find (path->m_link_vec[path->m_link_vec.size () - 2])
                != node_tt_map.end ()
           && node_tt_map.find (path->m_link_vec[path->m_link_vec.size () - 2])
-- 
2.43.0

