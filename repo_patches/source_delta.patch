From 142e749c0f45c575b6fa330ec2d661a657e44068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:54 +0000
Subject: [PATCH 01/37] fix: keep the fraction of flow_scalar in reported
 statistics

Links, nodes and origins read flow_scalar as a float; the DTA object truncated
it to an integer, so statistics of runs with a fractional scalar were wrong
(and divided by zero for scalars below one).
---
 src/dta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dta.cpp b/src/dta.cpp
index 0a7078c..ba2f4d1 100644
--- a/src/dta.cpp
+++ b/src/dta.cpp
@@ -80,7 +80,7 @@ MNM_Dta::initialize ()
   m_od_factory = new MNM_OD_Factory ();
   m_config = new MNM_ConfReader (m_file_folder + "/config.conf", "DTA");
   m_unit_time = m_config->get_int ("unit_time");
-  m_flow_scalar = m_config->get_int ("flow_scalar");
+  m_flow_scalar = m_config->get_float ("flow_scalar");
   TInt _ev_label;
   try
     {
-- 
2.43.0


From 891c1a31041ffdc6c48cf523879161a021f27837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:34 +0000
Subject: [PATCH 02/37] fix: size the per-minute multiclass demand by the
 assignment interval

add_dest_demand_multiclass and add_dest_adaptive_ratio_multiclass copied
max_interval * 15 values whatever assign_frq is: a heap over-read for
assignment intervals shorter than 15 minutes, and a truncated array that the
release step reads past for longer ones.
---
 src/multiclass.cpp | 32 ++++++++++++++++++--------------
 src/multiclass.h   |  6 ++++--
 src/multimodal.cpp |  3 ++-
 3 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 70c4f0d..4931ba6 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2980,18 +2980,19 @@ MNM_Origin_Multiclass::generate_label (TInt veh_class)
 
 int
 MNM_Origin_Multiclass::add_dest_demand_multiclass (
-  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck)
+  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck,
+  TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // split demand of an assignment interval to num_of_minute * 1-minute demand
+  double *_demand_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_car[i] = TFlt (demand_car[i]);
     }
   m_demand_car.insert ({ dest, _demand_car });
 
-  double *_demand_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  double *_demand_truck = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_truck[i] = TFlt (demand_truck[i]);
     }
@@ -3002,18 +3003,19 @@ MNM_Origin_Multiclass::add_dest_demand_multiclass (
 
 int
 MNM_Origin_Multiclass::add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck)
+                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                                           TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  TFlt *_ratio_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // split demand of an assignment interval to num_of_minute * 1-minute demand
+  TFlt *_ratio_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _ratio_car[i] = TFlt (ad_ratio_car[i]);
     }
   m_adaptive_ratio_car.insert ({ dest, _ratio_car });
 
-  TFlt *_ratio_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  TFlt *_ratio_truck = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _ratio_truck[i] = TFlt (ad_ratio_truck[i]);
     }
@@ -3897,7 +3899,8 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
               _dest = dynamic_cast<MNM_Destination_Multiclass *> (
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _num_of_minute);
             }
           else
             {
@@ -3977,7 +3980,8 @@ MNM_IO_Multiclass::build_td_adaptive_ratio (const std::string &file_folder,
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_adaptive_ratio_multiclass (_dest, 
                                                            _ratio_vector_car,
-                                                           _ratio_vector_truck);
+                                                           _ratio_vector_truck,
+                                                           _num_of_minute);
             }
           else
             {
diff --git a/src/multiclass.h b/src/multiclass.h
index a3e2bce..b83d086 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -418,9 +418,11 @@ public:
 
   // use this one instead of add_dest_demand in the base class
   int add_dest_demand_multiclass (MNM_Destination_Multiclass *dest,
-                                  TFlt *demand_car, TFlt *demand_truck);
+                                  TFlt *demand_car, TFlt *demand_truck,
+                                  TInt num_of_minute);
   int add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck);
+                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                          TInt num_of_minute);
   // two new unordered_map for both classes
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 430bb80..00de1f5 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -8617,7 +8617,8 @@ MNM_IO_Multimodal::build_vehicle_demand_multimodal (
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _num_of_minute);
             }
           else
             {
-- 
2.43.0


From 5a8a9dbed7586d761b297895339fdaf45a259f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:07 +0000
Subject: [PATCH 03/37] fix: keep the fraction of flow_scalar in multiclass and
 multimodal statistics

---
 src/multiclass.cpp | 2 +-
 src/multimodal.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 4931ba6..129ee28 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4358,7 +4358,7 @@ MNM_Dta_Multiclass::initialize ()
   // printf("4\n");
   m_config = new MNM_ConfReader (m_file_folder + "/config.conf", "DTA");
   m_unit_time = m_config->get_int ("unit_time");
-  m_flow_scalar = m_config->get_int ("flow_scalar");
+  m_flow_scalar = m_config->get_float ("flow_scalar");
   // printf("5\n");
   TInt _ev_label_car, _ev_label_truck;
   try
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 00de1f5..d90a765 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -9510,7 +9510,7 @@ MNM_Dta_Multimodal::initialize ()
 
   m_config = new MNM_ConfReader (m_file_folder + "/config.conf", "DTA");
   m_unit_time = m_config->get_int ("unit_time");
-  m_flow_scalar = m_config->get_int ("flow_scalar");
+  m_flow_scalar = m_config->get_float ("flow_scalar");
 
   m_passenger_factory = new MNM_Passenger_Factory ();
   m_veh_factory
-- 
2.43.0


From aeb3500e4b8fed92228f92279cd919b91e574146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:49 +0000
Subject: [PATCH 04/37] fix: keep one O-D pair's adaptive ratio from applying
 to the next pairs

---
 src/multiclass.cpp | 36 ++++++++++++++++++++----------------
 src/multimodal.cpp | 36 ++++++++++++++++++++----------------
 src/od.cpp         |  9 +++++----
 3 files changed, 45 insertions(+), 36 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 129ee28..0260ec3 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3083,19 +3083,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3104,7 +3105,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3132,19 +3133,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3153,7 +3155,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3198,19 +3200,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_car;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3219,7 +3222,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3247,19 +3250,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_truck;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3268,7 +3272,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index d90a765..289fc3e 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2675,8 +2675,9 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2685,13 +2686,13 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0),
                                                      TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2700,7 +2701,7 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2727,8 +2728,9 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2737,13 +2739,13 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1),
                                                      TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2752,7 +2754,7 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2882,8 +2884,9 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_car;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2892,13 +2895,13 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0),
                                                      TInt (1));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2907,7 +2910,7 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2934,8 +2937,9 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_truck;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2944,13 +2948,13 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1),
                                                      TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2959,7 +2963,7 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/od.cpp b/src/od.cpp
index 9490b0e..d89bf8d 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -137,18 +137,19 @@ MNM_Origin::release_one_interval (TInt current_interval,
        _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio.find(_demand_it->first) != m_adaptive_ratio.end()) {
-        adaptive_ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = veh_factory->make_veh (current_interval, MNM_TYPE_STATIC);
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = veh_factory->make_veh (current_interval, MNM_TYPE_ADAPTIVE);
@@ -156,7 +157,7 @@ MNM_Origin::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = veh_factory->make_veh (current_interval,
                                                 MNM_TYPE_ADAPTIVE);
-- 
2.43.0


From 346cae7c5420660a9bc62ddfa45ba1923df522df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:21 +0000
Subject: [PATCH 05/37] fix: count vehicles waiting at the end of a CTM link
 once

---
 src/dlink.cpp      |  2 +-
 src/multiclass.cpp | 23 ++++-------------------
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index eda34d9..2b6c646 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -399,7 +399,7 @@ MNM_Dlink_Ctm::get_link_flow ()
     {
       _total_volume += m_cell_array[i]->m_volume;
     }
-  _total_volume += m_finished_array.size ();
+  // the volume of the last cell includes the vehicles in m_finished_array
   return TFlt (_total_volume) / m_flow_scalar;
 }
 
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 0260ec3..ef1bf13 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -876,14 +876,7 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_car ()
     {
       _total_volume_car += m_cell_array[i]->m_volume_car;
     }
-  std::deque<MNM_Veh *>::iterator _veh_it;
-  for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
-       _veh_it++)
-    {
-      MNM_Veh_Multiclass *_veh = dynamic_cast<MNM_Veh_Multiclass *> (*_veh_it);
-      if (_veh->m_class == 0)
-        _total_volume_car += 1;
-    }
+  // the volume of the last cell includes the vehicles in m_finished_array
   return TFlt (_total_volume_car) / m_flow_scalar;
 }
 
@@ -895,14 +888,7 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_truck ()
     {
       _total_volume_truck += m_cell_array[i]->m_volume_truck;
     }
-  std::deque<MNM_Veh *>::iterator _veh_it;
-  for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
-       _veh_it++)
-    {
-      MNM_Veh_Multiclass *_veh = dynamic_cast<MNM_Veh_Multiclass *> (*_veh_it);
-      if (_veh->m_class == 1)
-        _total_volume_truck += 1;
-    }
+  // the volume of the last cell includes the vehicles in m_finished_array
   return TFlt (_total_volume_truck) / m_flow_scalar;
 }
 
@@ -995,9 +981,8 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow ()
       _total_volume_car += m_cell_array[i]->m_volume_car;
       _total_volume_truck += m_cell_array[i]->m_volume_truck;
     }
-  return TFlt (_total_volume_car + _total_volume_truck
-               + m_finished_array.size ())
-         / m_flow_scalar;
+  // the volume of the last cell includes the vehicles in m_finished_array
+  return TFlt (_total_volume_car + _total_volume_truck) / m_flow_scalar;
 }
 
 TFlt
-- 
2.43.0


From e095a7594bbd3c4d20ebaf282a2f800d064f49ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:41 +0000
Subject: [PATCH 06/37] fix: report the free-flow time of link-queue links in
 intervals

---
 src/dlink.cpp      | 2 +-
 src/multiclass.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 2b6c646..ae906f6 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -937,7 +937,7 @@ MNM_Dlink_Lq::get_link_freeflow_tt_loading ()
 {
   // throw std::runtime_error("Error, MNM_Dlink_Lq::get_link_freeflow_tt_loading
   // NOT implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs);
+  return MNM_Ults::round_up_time (m_length / m_ffs / m_unit_time);
 }
 
 /**************************************************************************
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index ef1bf13..b872c23 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1946,7 +1946,7 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_car);
+  return MNM_Ults::round_up_time (m_length / m_ffs_car / m_unit_time);
 }
 
 TInt
@@ -1955,7 +1955,7 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_truck);
+  return MNM_Ults::round_up_time (m_length / m_ffs_truck / m_unit_time);
 }
 
 /// Multiclass point queue model
-- 
2.43.0


From b816f9724bc2b8667a547075dcf55fd54dc63549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:10 +0000
Subject: [PATCH 07/37] fix: let exceptions out of silence() when the
 descriptor is invalid

---
 macposts/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/macposts/utils.py b/macposts/utils.py
index f966690..4b2b063 100644
--- a/macposts/utils.py
+++ b/macposts/utils.py
@@ -28,10 +28,8 @@ def silence(fd=STDOUT_FD):
     try:
         os.fstat(fd)
     except Exception:
-        try:
-            yield
-        finally:
-            return
+        yield
+        return
 
     save = os.dup(fd)
     null = os.open(os.devnull, os.O_RDWR)
-- 
2.43.0


From 255efe8d73bd3057bd7e7c939c7275efcff0e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:27 +0000
Subject: [PATCH 08/37] fix: return every neighbor of a graph node

---
 src/graph.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/graph.h b/src/graph.h
index eb71e2f..79b1519 100644
--- a/src/graph.h
+++ b/src/graph.h
@@ -250,6 +250,8 @@ public:
         // Invariant: before stepping to the next neighbor, the current one
         // should have never been seen.
         assert (!(cur && seen.count (cur->endpoints[direction])));
+        if (cur)
+          seen.insert (cur->endpoints[direction]);
         while (cur || refill)
           {
             if (!cur)
@@ -260,10 +262,6 @@ public:
                   = invert (this->direction);
                 direction = static_cast<int> (this->direction);
               }
-            else
-              {
-                seen.insert (cur->endpoints[direction]);
-              }
 
             if (!seen.count (cur->endpoints[direction]))
               break;
-- 
2.43.0


From 4a5d316eea62a972adbfe0af99312b9f6a57f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:27 +0000
Subject: [PATCH 09/37] fix: release demand in an order that does not depend on
 heap addresses

---
 src/multiclass.cpp  |  6 ++++--
 src/multiclass.h    |  6 ++++--
 src/od.cpp          |  5 +++--
 src/od.h            | 13 ++++++++++++-
 src/pre_routing.cpp |  3 +--
 5 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index b872c23..b290ff0 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2864,8 +2864,10 @@ MNM_Origin_Multiclass::MNM_Origin_Multiclass (TInt ID, TInt max_interval,
                                               TFlt flow_scalar, TInt frequency)
     : MNM_Origin::MNM_Origin (ID, max_interval, flow_scalar, frequency)
 {
-  m_demand_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_demand_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
+  m_demand_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *,
+                                    MNM_Destination_Hash> ();
+  m_demand_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *,
+                                    MNM_Destination_Hash> ();
   m_adaptive_ratio_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
   m_adaptive_ratio_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
   m_car_label_ratio = std::vector<TFlt> ();
diff --git a/src/multiclass.h b/src/multiclass.h
index b83d086..0397ffd 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -424,8 +424,10 @@ public:
                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
                                           TInt num_of_minute);
   // two new unordered_map for both classes
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
+  std::unordered_map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Hash>
+    m_demand_car;
+  std::unordered_map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Hash>
+    m_demand_truck;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_car;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_truck;
 
diff --git a/src/od.cpp b/src/od.cpp
index d89bf8d..27cb838 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -14,8 +14,9 @@ MNM_Origin::MNM_Origin (TInt ID, TInt max_interval, TFlt flow_scalar,
     }
   m_frequency = frequency;
   m_demand
-    = std::unordered_map<MNM_Destination *,
-                         TFlt *> (); // destination node, time-varying demand
+    = std::unordered_map<
+      MNM_Destination *, TFlt *,
+      MNM_Destination_Hash> (); // destination node, time-varying demand
   m_adaptive_ratio
     = std::unordered_map<MNM_Destination *,
                          TFlt *> (); // destination node, time-varying adaptive ratio
diff --git a/src/od.h b/src/od.h
index db1ef5d..61f2a92 100644
--- a/src/od.h
+++ b/src/od.h
@@ -15,6 +15,17 @@ class MNM_DMOND;
 class MNM_DMDND;
 class MNM_Routing;
 
+// Hash a destination by its ID. Hashing the pointer would make the order in
+// which demand is released (and the random numbers it gets) depend on heap
+// addresses, so that runs with the same random state could differ.
+struct MNM_Destination_Hash
+{
+  template <typename Dest> size_t operator() (const Dest *dest) const
+  {
+    return dest->m_Dest_ID;
+  }
+};
+
 class MNM_Origin
 {
 public:
@@ -46,7 +57,7 @@ public:
   TInt m_current_assign_interval;
   TInt m_max_assign_interval;
   TFlt m_flow_scalar;
-  std::unordered_map<MNM_Destination *, TFlt *> m_demand;
+  std::unordered_map<MNM_Destination *, TFlt *, MNM_Destination_Hash> m_demand;
   std::unordered_map<MNM_Destination *, TFlt *> m_adaptive_ratio;
 
   std::vector<TFlt> m_vehicle_label_ratio;
diff --git a/src/pre_routing.cpp b/src/pre_routing.cpp
index 47d6e0d..9671b2a 100644
--- a/src/pre_routing.cpp
+++ b/src/pre_routing.cpp
@@ -33,8 +33,7 @@ MNM_Pre_Routing::MNM_Pre_Routing (Path_Table *path_table,
           _origin_node_ID = _o_it->second->m_origin_node->m_node_ID;
           //-----
           int size_demand = _o_it->second->m_max_assign_interval;
-          std::unordered_map<MNM_Destination *, TFlt *>::const_iterator
-            demand_it
+          auto demand_it
             = _o_it->second->m_demand.find (_d_it->second);
           if (demand_it != _o_it->second->m_demand.end ())
             {
-- 
2.43.0


From d308b94866b7bf3de48fc218c988e1001fa65078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:27 +0000
Subject: [PATCH 10/37] fix: record free-flow travel times before the first
 interval

---
 src/multiclass.cpp | 8 ++++----
 src/multimodal.cpp | 4 ++--
 src/statistics.cpp | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index b290ff0..fe5284f 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -6630,7 +6630,7 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
   TFlt _flow, _flow1, _flow2, _tt, _tt1, _tt2;
   if (m_record_volume)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
@@ -6644,7 +6644,7 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
                 = _flow1;
               m_load_interval_volume_truck.find (_link->m_link_ID)->second
                 = _flow2;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_volume.find (_link->m_link_ID)->second
                     = _flow;
@@ -6697,7 +6697,7 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
     }
   if (m_record_tt)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
@@ -6710,7 +6710,7 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
               m_load_interval_tt.find (_link->m_link_ID)->second = _tt;
               m_load_interval_tt_car.find (_link->m_link_ID)->second = _tt1;
               m_load_interval_tt_truck.find (_link->m_link_ID)->second = _tt2;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_tt.find (_link->m_link_ID)->second = _tt;
                   m_record_interval_tt_car.find (_link->m_link_ID)->second
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 289fc3e..7eddacb 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -5003,7 +5003,7 @@ MNM_Statistics_Lrn_Multimodal::update_record (TInt timestamp)
   TFlt _tt;
   if (m_record_tt)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_transitlink_factory->m_transit_link_map)
             {
@@ -5011,7 +5011,7 @@ MNM_Statistics_Lrn_Multimodal::update_record (TInt timestamp)
               _tt = _link->get_link_tt ();
               m_load_interval_tt_bus_transit.find (_link->m_link_ID)->second
                 = _tt;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_tt_bus_transit.find (_link->m_link_ID)
                     ->second
diff --git a/src/statistics.cpp b/src/statistics.cpp
index 32bbfab..e63c8c6 100644
--- a/src/statistics.cpp
+++ b/src/statistics.cpp
@@ -321,14 +321,14 @@ MNM_Statistics_Lrn::update_record (TInt timestamp)
   TFlt _flow, _tt;
   if (m_record_volume)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
               _link = _link_it.second;
               _flow = _link->get_link_flow ();
               m_load_interval_volume.find (_link->m_link_ID)->second = _flow;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_volume.find (_link->m_link_ID)->second
                     = _flow;
@@ -357,14 +357,14 @@ MNM_Statistics_Lrn::update_record (TInt timestamp)
     }
   if (m_record_tt)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
               _link = _link_it.second;
               _tt = _link->get_link_tt (); // seconds
               m_load_interval_tt.find (_link->m_link_ID)->second = _tt;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_tt.find (_link->m_link_ID)->second = _tt;
                 }
-- 
2.43.0


From f8beb9edb4614094227e541a97ec250caa2e0c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:27 +0000
Subject: [PATCH 11/37] fix: density of two-class link-queue links covers all
 lanes

---
 src/multiclass.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index fe5284f..c95ae43 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1855,8 +1855,8 @@ MNM_Dlink_Lq_Multiclass::get_link_tt ()
 {
   // For adaptive routing and emissions, need modification for multiclass cases
   TFlt _cost, _spd;
-  TFlt _rho = get_link_flow () / m_number_of_lane
-              / m_length; // get the density in veh/mile
+  // m_k_j and m_k_C are densities of all lanes together
+  TFlt _rho = get_link_flow () / m_length; // get the density in veh/mile
   TFlt _rhoj = m_k_j_car; // get the jam density
   TFlt _rhok = m_k_C_car; // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
@@ -1885,7 +1885,7 @@ TFlt
 MNM_Dlink_Lq_Multiclass::get_link_tt_from_flow_car (TFlt flow)
 {
   TFlt _cost, _spd;
-  TFlt _rho = flow / m_number_of_lane / m_length; // get the density in veh/mile
+  TFlt _rho = flow / m_length; // get the density in veh/mile
   TFlt _rhoj = m_k_j_car;                         // get the jam density
   TFlt _rhok = m_k_C_car;                         // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
@@ -1914,7 +1914,7 @@ TFlt
 MNM_Dlink_Lq_Multiclass::get_link_tt_from_flow_truck (TFlt flow)
 {
   TFlt _cost, _spd;
-  TFlt _rho = flow / m_number_of_lane / m_length; // get the density in veh/mile
+  TFlt _rho = flow / m_length; // get the density in veh/mile
   TFlt _rhoj = m_k_j_truck;                       // get the jam density
   TFlt _rhok = m_k_C_truck;                       // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
-- 
2.43.0


From f3594850d6ec38ab509eb5039372d3a87179a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:27 +0000
Subject: [PATCH 12/37] fix: do not use the graph when destroying
 time-dependent shortest path trees

---
 src/shortest_path.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 80979b2..f8cf175 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -569,15 +569,11 @@ MNM_TDSP_Tree::MNM_TDSP_Tree (TInt dest_node_ID, macposts::Graph &graph,
 
 MNM_TDSP_Tree::~MNM_TDSP_Tree ()
 {
-  TInt _node_ID;
-  for (const auto &n : m_graph.nodes ())
-    {
-      _node_ID = m_graph.get_id (n);
-      if (m_dist[_node_ID] != nullptr)
-        delete m_dist[_node_ID];
-      if (m_tree[_node_ID] != nullptr)
-        delete m_tree[_node_ID];
-    }
+  // Do not use m_graph here, its owner may have been destroyed already.
+  for (auto &_it : m_dist)
+    delete[] _it.second;
+  for (auto &_it : m_tree)
+    delete[] _it.second;
   m_dist.clear ();
   m_tree.clear ();
 }
-- 
2.43.0


From 2135311e33ff07864ddf32a2ba94281d778d3c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:27 +0000
Subject: [PATCH 13/37] fix: cover connector links by paths of their own origin
 or destination

---
 macposts/_ext/dta.cpp   | 14 ++++++--------
 macposts/_ext/mcdta.cpp | 28 ++++++++++++----------------
 src/path.cpp            | 10 ++++++++++
 src/path.h              |  5 +++++
 4 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 03d9f20..2b237be 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1488,14 +1488,12 @@ Dta::generate_paths_to_cover_registered_links ()
               for (auto _it_it : pair_ptrs_2)
                 {
                   _dest = _it_it.first;
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (MNM::has_path (_shortest_path_tree,
+                                      _origin->m_origin_node->m_node_ID,
+                                      _from_node_ID)
+                      && MNM::has_path (_shortest_path_tree_reversed,
+                                       _dest->m_dest_node->m_node_ID,
+                                       _to_node_ID))
                     {
                       _flg = true;
                       break;
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index f7b8572..b0ce461 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -2595,14 +2595,12 @@ Mcdta::generate_paths_to_cover_registered_links ()
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (MNM::has_path (_shortest_path_tree,
+                                      _origin->m_origin_node->m_node_ID,
+                                      _from_node_ID)
+                      && MNM::has_path (_shortest_path_tree_reversed,
+                                       _dest->m_dest_node->m_node_ID,
+                                       _to_node_ID))
                     {
                       _flg = true;
                       break;
@@ -2832,14 +2830,12 @@ Mcdta::generate_paths_to_cover_links (py::array_t<int> links, int max_iter)
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (MNM::has_path (_shortest_path_tree,
+                                      _origin->m_origin_node->m_node_ID,
+                                      _from_node_ID)
+                      && MNM::has_path (_shortest_path_tree_reversed,
+                                       _dest->m_dest_node->m_node_ID,
+                                       _to_node_ID))
                     {
                       _flg = true;
                       break;
diff --git a/src/path.cpp b/src/path.cpp
index b7c6a82..1ee2e6e 100644
--- a/src/path.cpp
+++ b/src/path.cpp
@@ -377,6 +377,16 @@ extract_path (TInt origin_node_ID, TInt dest_node_ID,
   return _path;
 }
 
+bool
+has_path (const std::unordered_map<TInt, TInt> &tree, TInt origin_node_ID,
+          TInt dest_node_ID)
+{
+  if (tree.empty ())
+    return origin_node_ID == dest_node_ID;
+  auto _it = tree.find (origin_node_ID);
+  return _it != tree.end () && _it->second != -1;
+}
+
 TFlt
 get_path_tt_snapshot (MNM_Path *path,
                       const std::unordered_map<TInt, TFlt> &link_cost_map)
diff --git a/src/path.h b/src/path.h
index 7423973..b3adb1d 100644
--- a/src/path.h
+++ b/src/path.h
@@ -93,6 +93,11 @@ TFlt get_path_tt_snapshot (MNM_Path *path,
 TFlt get_path_tt (TFlt start_time, MNM_Path *path,
                   const std::unordered_map<TInt, TFlt *> &link_cost_map,
                   TInt max_interval);
+// Whether extract_path would find a path from one node to the other. An empty
+// tree stands for the path of one node.
+bool has_path (const std::unordered_map<TInt, TInt> &tree,
+               TInt origin_node_ID, TInt dest_node_ID);
+
 Path_Table *build_pathset (macposts::Graph &graph, MNM_OD_Factory *od_factory,
                            MNM_Link_Factory *link_factory,
                            TFlt min_path_length = 0.0, size_t MaxIter = 10,
-- 
2.43.0


From 8b7712c40288caa1d0b184ddb8ab1a1a1464d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:27 +0000
Subject: [PATCH 14/37] fix: generate paths for the given links, not the
 registered ones

---
 macposts/_ext/mcdta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index b0ce461..8680d54 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -2757,7 +2757,7 @@ Mcdta::generate_paths_to_cover_links (py::array_t<int> links, int max_iter)
   for (int i = 0; i < num_links; ++i)
     {
       // generate new path including this link
-      auto &&sd = m_mcdta->m_graph.get_endpoints (m_link_vec[i]->m_link_ID);
+      auto &&sd = m_mcdta->m_graph.get_endpoints (links_ptr[i]);
       _from_node_ID = m_mcdta->m_graph.get_id (sd.first);
       _to_node_ID = m_mcdta->m_graph.get_id (sd.second);
 
-- 
2.43.0


From 2287ae786b226adef28675f73f729c006c1184fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:37 +0000
Subject: [PATCH 15/37] fix: honour time-dependent adaptive ratios in hybrid
 routing when the configured ratio is zero

---
 src/multiclass.h |  4 ++++
 src/od.h         |  1 +
 src/routing.cpp  | 12 ++++++++++++
 3 files changed, 17 insertions(+)

diff --git a/src/multiclass.h b/src/multiclass.h
index 0397ffd..b877881 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -423,6 +423,10 @@ public:
   int add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
                                           TInt num_of_minute);
+  virtual bool has_adaptive_ratio () override
+  {
+    return !m_adaptive_ratio_car.empty () || !m_adaptive_ratio_truck.empty ();
+  };
   // two new unordered_map for both classes
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Hash>
     m_demand_car;
diff --git a/src/od.h b/src/od.h
index 61f2a92..f90f15b 100644
--- a/src/od.h
+++ b/src/od.h
@@ -51,6 +51,7 @@ public:
 
   int add_dest_demand (MNM_Destination *dest, TFlt *demand);
   int add_dest_adaptive_ratio (MNM_Destination *dest, TFlt *ad_ratio);
+  virtual bool has_adaptive_ratio () { return !m_adaptive_ratio.empty (); };
   MNM_DMOND *m_origin_node;
   // private:
   TInt m_frequency;
diff --git a/src/routing.cpp b/src/routing.cpp
index 1188a25..8f8086c 100644
--- a/src/routing.cpp
+++ b/src/routing.cpp
@@ -669,6 +669,12 @@ MNM_Routing_Hybrid::MNM_Routing_Hybrid (const std::string &file_folder,
                                 node_factory, link_factory);
   auto *_tmp_config = new MNM_ConfReader (file_folder + "/config.conf", "DTA");
   m_routing_adaptive->m_working = _tmp_config->get_float ("adaptive_ratio") > 0;
+  // the ratio can also come from the file of time-dependent adaptive ratios
+  for (auto _it : od_factory->m_origin_map)
+    {
+      if (_it.second->has_adaptive_ratio ())
+        m_routing_adaptive->m_working = true;
+    }
   delete _tmp_config;
 }
 
@@ -729,6 +735,12 @@ MNM_Routing_Biclass_Hybrid::MNM_Routing_Biclass_Hybrid (
   m_routing_adaptive->m_working
     = _tmp_config->get_float ("adaptive_ratio_car") > 0
       || _tmp_config->get_float ("adaptive_ratio_truck") > 0;
+  // the ratio can also come from the file of time-dependent adaptive ratios
+  for (auto _it : od_factory->m_origin_map)
+    {
+      if (_it.second->has_adaptive_ratio ())
+        m_routing_adaptive->m_working = true;
+    }
   delete _tmp_config;
 }
 
-- 
2.43.0


From d65df539bd19578d4ffaa39846620fa95f929f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:37 +0000
Subject: [PATCH 16/37] fix: read fractional tolls of time-dependent link
 attributes

---
 src/io.cpp         | 2 +-
 src/multiclass.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index f716ab7..8d577b4 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -760,7 +760,7 @@ MNM_IO::build_link_td_attribute (const std::string &file_folder,
               _lane_hold_cap = TFlt (
                 std::stod (_words[6])); // jam density (vehicles/mile/lane)
               _number_of_lane = TInt (std::stoi (_words[7]));
-              _toll = TFlt (std::stoi (_words[8]));
+              _toll = TFlt (std::stod (_words[8]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index c95ae43..55ec0e6 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4226,7 +4226,7 @@ MNM_IO_Multiclass::build_link_td_attribute (const std::string &file_folder,
               _lane_flow_cap_truck = TFlt (std::stod (_words[9]));
               _lane_hold_cap_truck = TFlt (std::stod (_words[10]));
               _veh_convert_factor = TFlt (std::stod (_words[11]));
-              _toll = TFlt (std::stoi (_words[12]));
+              _toll = TFlt (std::stod (_words[12]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
-- 
2.43.0


From 5cd03ffe693b363ae4a32b7ec404f63a1d5cde21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:37 +0000
Subject: [PATCH 17/37] fix: skip comments and blank lines in the path table
 buffer

---
 src/io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 8d577b4..95eb8c2 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -869,9 +869,11 @@ MNM_IO::load_path_table (const std::string &file_name,
             {
               while (1)
                 {
-                  std::getline (_buffer_file, _buffer_line);
+                  if (!std::getline (_buffer_file, _buffer_line))
+                    throw std::runtime_error (
+                      "path table buffer has fewer rows than the path table");
                   _buffer_line = trim (_buffer_line);
-                  if (!_line.empty () && _line[0] != '#')
+                  if (!_buffer_line.empty () && _buffer_line[0] != '#')
                     {
                       break;
                     }
-- 
2.43.0


From 0d8d0871a621fddb061366389d7003b94193acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:38 +0000
Subject: [PATCH 18/37] fix: reject paths between nodes without a link

---
 src/io.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 95eb8c2..5309dbe 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -914,6 +914,7 @@ MNM_IO::load_path_table (const std::string &file_name,
                 {
                   _from_ID = _path->m_node_vec[j];
                   _to_ID = _path->m_node_vec[j + 1];
+                  bool _found = false;
                   for (auto &&c : graph.connections (graph.get_node (_from_ID),
                                                      Direction::Outgoing))
                     {
@@ -921,9 +922,13 @@ MNM_IO::load_path_table (const std::string &file_name,
                           == _to_ID)
                         {
                           _link_ID = graph.get_id (c);
+                          _found = true;
                           break;
                         }
                     };
+                  if (!_found)
+                    throw std::runtime_error (
+                      "no link between consecutive nodes of a path");
                   _path->m_link_vec.push_back (_link_ID);
                 }
 
-- 
2.43.0


From 5e640e50efcaa3ac2735a6d957b9e78fb53c9e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:56 +0000
Subject: [PATCH 19/37] fix: keep one demand value per minute of an assignment
 interval (multimodal)

---
 src/multimodal.cpp | 35 ++++++++++++++++++++---------------
 src/multimodal.h   |  7 ++++---
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 7eddacb..ab59405 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2606,12 +2606,13 @@ MNM_Origin_Multimodal::evolve (TInt timestamp)
 
 int
 MNM_Origin_Multimodal::add_dest_demand_bus (MNM_Destination_Multimodal *dest,
-                                            TInt routeID, TFlt *demand_bus)
+                                            TInt routeID, TFlt *demand_bus,
+                                            TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
+  // split demand of an assignment interval to num_of_minute * 1-minute demand
   // bus demand
-  double *_demand_bus = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  double *_demand_bus = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_bus[i] = TFlt (demand_bus[i]);
     }
@@ -2631,11 +2632,11 @@ MNM_Origin_Multimodal::add_dest_demand_bus (MNM_Destination_Multimodal *dest,
 
 int
 MNM_Origin_Multimodal::add_dest_demand_pnr_car (
-  MNM_Destination_Multimodal *dest, TFlt *demand_pnr_car)
+  MNM_Destination_Multimodal *dest, TFlt *demand_pnr_car, TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_pnr_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // split demand of an assignment interval to num_of_minute * 1-minute demand
+  double *_demand_pnr_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_pnr_car[i] = TFlt (demand_pnr_car[i]);
     }
@@ -2645,11 +2646,12 @@ MNM_Origin_Multimodal::add_dest_demand_pnr_car (
 
 int
 MNM_Origin_Multimodal::add_dest_demand_passenger_bus (
-  MNM_Destination_Multimodal *dest, TFlt *demand_passenger_bus)
+  MNM_Destination_Multimodal *dest, TFlt *demand_passenger_bus,
+  TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_passenger_bus = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // split demand of an assignment interval to num_of_minute * 1-minute demand
+  double *_demand_passenger_bus = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_passenger_bus[i] = TFlt (demand_passenger_bus[i]);
     }
@@ -8711,7 +8713,8 @@ MNM_IO_Multimodal::build_vehicle_demand_multimodal (
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
               _origin->add_dest_demand_bus (_dest, _route_ID,
-                                            _demand_vector_bus);
+                                            _demand_vector_bus,
+                                            _num_of_minute);
             }
           else
             {
@@ -8820,7 +8823,8 @@ MNM_IO_Multimodal::build_pnr_demand (const std::string &file_folder,
                 od_factory->get_origin (_origin_ID));
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
-              _origin->add_dest_demand_pnr_car (_dest, _demand_vector);
+              _origin->add_dest_demand_pnr_car (_dest, _demand_vector,
+                                                _num_of_minute);
             }
           else
             {
@@ -8932,7 +8936,8 @@ MNM_IO_Multimodal::build_bustransit_demand (const std::string &file_folder,
                 od_factory->get_origin (_origin_ID));
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
-              _origin->add_dest_demand_passenger_bus (_dest, _demand_vector);
+              _origin->add_dest_demand_passenger_bus (_dest, _demand_vector,
+                                                      _num_of_minute);
             }
           else
             {
diff --git a/src/multimodal.h b/src/multimodal.h
index a9e51b3..27ddbe3 100644
--- a/src/multimodal.h
+++ b/src/multimodal.h
@@ -421,13 +421,14 @@ public:
                                       TFlt adaptive_ratio);
 
   int add_dest_demand_bus (MNM_Destination_Multimodal *dest, TInt routeID,
-                           TFlt *demand_bus);
+                           TFlt *demand_bus, TInt num_of_minute);
 
   int add_dest_demand_pnr_car (MNM_Destination_Multimodal *dest,
-                               TFlt *demand_pnr_car);
+                               TFlt *demand_pnr_car, TInt num_of_minute);
 
   int add_dest_demand_passenger_bus (MNM_Destination_Multimodal *dest,
-                                     TFlt *demand_passenger_bus);
+                                     TFlt *demand_passenger_bus,
+                                     TInt num_of_minute);
 
   // <Destination node, <routeID, time-varying demand>>
   std::unordered_map<MNM_Destination_Multimodal *,
-- 
2.43.0


From 3b02603e48b0072c25fc80b0962f13f72f72ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:56 +0000
Subject: [PATCH 20/37] fix: delete a finished passenger after its last use

---
 src/multimodal.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index ab59405..c5d7c3f 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -1845,10 +1845,6 @@ MNM_Passenger_Factory::remove_finished_passenger (MNM_Passenger *passenger,
   IAssert (passenger->m_finish_time > passenger->m_start_time);
   m_total_time_passenger
     += (passenger->m_finish_time - passenger->m_start_time);
-  if (del)
-    {
-      delete passenger;
-    }
 
   m_finished_passenger += 1;
   m_enroute_passenger -= 1;
@@ -1861,6 +1857,10 @@ MNM_Passenger_Factory::remove_finished_passenger (MNM_Passenger *passenger,
   IAssert (m_num_passenger == m_finished_passenger + m_enroute_passenger);
   IAssert (m_num_passenger_pnr
            == m_finished_passenger_pnr + m_enroute_passenger_pnr);
+  if (del)
+    {
+      delete passenger;
+    }
   return 0;
 }
 
-- 
2.43.0


From 4b5a61ba0f449a38af8137312589bb56ff73c5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:56 +0000
Subject: [PATCH 21/37] fix: allow multimodal networks without transit or
 park-and-ride paths

---
 src/multimodal.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index c5d7c3f..4778a11 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -5594,6 +5594,8 @@ int
 MNM_Routing_PnR_Fixed::change_choice_portion (TInt routing_interval)
 {
   // m_veh_class starts from 0 (car) to 1 (truck)
+  if (m_pnr_path_table == nullptr)
+    return 0;
   MNM::copy_buffer_to_p (m_pnr_path_table, routing_interval);
   MNM::normalize_path_table_p (m_pnr_path_table);
   return 0;
@@ -5896,6 +5898,8 @@ int
 MNM_Routing_PassengerBusTransit_Fixed::change_choice_portion (
   TInt routing_interval)
 {
+  if (m_bustransit_path_table == nullptr)
+    return 0;
   MNM::copy_buffer_to_p (m_bustransit_path_table, routing_interval);
   MNM::normalize_path_table_p (m_bustransit_path_table);
   return 0;
-- 
2.43.0


From 57390fc0d6bbb7de2d30cb9c0db27c9fd95f52ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:45 +0000
Subject: [PATCH 22/37] fix: start passengers without a waiting time

---
 src/multimodal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 4778a11..409a82c 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -1683,6 +1683,7 @@ MNM_Passenger::MNM_Passenger (TInt ID, TInt start_time, TInt passenger_type)
   m_passenger_ID = ID;
   m_passenger_type = passenger_type;
   m_pnr = false;
+  m_waiting_time = 0;
   m_current_link = nullptr;
   m_next_link = nullptr;
   m_origin = nullptr;
-- 
2.43.0


From 97e312911dd1b318b83ea4cf6435cc32d8ce85ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:46 +0000
Subject: [PATCH 23/37] fix: free the link cost arrays of the multimodal
 equilibrium as arrays

---
 src/multimodal.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 409a82c..6783f33 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -15129,73 +15129,73 @@ MNM_MM_Due::~MNM_MM_Due ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _tt_it : m_link_tt_map_truck)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map_truck.clear ();
 
   for (auto _tt_it : m_transitlink_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_transitlink_tt_map.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _cost_it : m_link_cost_map_truck)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map_truck.clear ();
 
   for (auto _cost_it : m_transitlink_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_transitlink_cost_map.clear ();
 
   for (auto _it : m_link_congested_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_car.clear ();
 
   for (auto _it : m_link_congested_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_truck.clear ();
 
   for (auto _it : m_transitlink_congested_passenger)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_transitlink_congested_passenger.clear ();
 
   for (auto _it : m_queue_dissipated_time_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_car.clear ();
 
   for (auto _it : m_queue_dissipated_time_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_truck.clear ();
 
   for (auto _it : m_queue_dissipated_time_passenger)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_passenger.clear ();
 
-- 
2.43.0


From 89062bdb69472bfc7f2b0174fc8464705844d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:56 +0000
Subject: [PATCH 24/37] fix: survive a multimodal network that cannot be loaded

---
 src/multimodal.cpp | 48 ++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 6783f33..78cbd5d 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -15228,14 +15228,21 @@ MNM_MM_Due::~MNM_MM_Due ()
 
   // those paths in these path tables are also stored in m_passenger_path_table
   // avoid double deleting them
-  MNM_Routing_Multimodal_Hybrid *_routing
-    = dynamic_cast<MNM_Routing_Multimodal_Hybrid *> (m_mmdta->m_routing);
-  IAssert (_routing != nullptr);
-  Path_Table *driving_path_table = _routing->m_routing_fixed_car->m_path_table;
-  PnR_Path_Table *pnr_path_table
-    = _routing->m_routing_car_pnr_fixed->m_pnr_path_table;
-  Path_Table *bustransit_path_table
-    = _routing->m_routing_passenger_fixed->m_bustransit_path_table;
+  // there is nothing to keep if the network could not be loaded
+  MNM_Routing_Multimodal_Hybrid *_routing = nullptr;
+  if (m_mmdta != nullptr)
+    _routing
+      = dynamic_cast<MNM_Routing_Multimodal_Hybrid *> (m_mmdta->m_routing);
+  Path_Table *driving_path_table = nullptr;
+  PnR_Path_Table *pnr_path_table = nullptr;
+  Path_Table *bustransit_path_table = nullptr;
+  if (_routing != nullptr && m_passenger_path_table != nullptr)
+    {
+      driving_path_table = _routing->m_routing_fixed_car->m_path_table;
+      pnr_path_table = _routing->m_routing_car_pnr_fixed->m_pnr_path_table;
+      bustransit_path_table
+        = _routing->m_routing_passenger_fixed->m_bustransit_path_table;
+    }
 
   if (driving_path_table != nullptr && !driving_path_table->empty ())
     {
@@ -15268,25 +15275,28 @@ MNM_MM_Due::~MNM_MM_Due ()
         }
     }
 
-  for (auto _o_it : *m_passenger_path_table)
+  if (m_passenger_path_table != nullptr)
     {
-      for (auto _d_it : *_o_it.second)
+      for (auto _o_it : *m_passenger_path_table)
         {
-          for (auto _m_it : *_d_it.second)
+          for (auto _d_it : *_o_it.second)
             {
-              if (_m_it.second != nullptr)
+              for (auto _m_it : *_d_it.second)
                 {
-                  delete _m_it.second;
+                  if (_m_it.second != nullptr)
+                    {
+                      delete _m_it.second;
+                    }
                 }
+              _d_it.second->clear ();
+              delete _d_it.second;
             }
-          _d_it.second->clear ();
-          delete _d_it.second;
+          _o_it.second->clear ();
+          delete _o_it.second;
         }
-      _o_it.second->clear ();
-      delete _o_it.second;
+      m_passenger_path_table->clear ();
+      delete m_passenger_path_table;
     }
-  m_passenger_path_table->clear ();
-  delete m_passenger_path_table;
 
   delete m_mmdta;
 
-- 
2.43.0


From fd3a52696dbd2d479e66fea2be6b760b61102fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:03 +0000
Subject: [PATCH 25/37] fix: count the time of unfinished trucks as truck time
 (multimodal)

---
 macposts/_ext/mmdta.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 2e53844..ecf2e84 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -1731,13 +1731,15 @@ Mmdta::get_travel_stats ()
           if (_veh->m_bus_route_ID == TInt (-1))
             {
               _count_truck += 1;
+              _tot_tt_truck += (_end_time - _veh->m_start_time)
+                               * m_mmdta->m_unit_time / 3600.0;
             }
           else
             {
               _count_bus += 1;
+              _tot_tt_bus += (_end_time - _veh->m_start_time)
+                             * m_mmdta->m_unit_time / 3600.0;
             }
-          _tot_tt_bus
-            += (_end_time - _veh->m_start_time) * m_mmdta->m_unit_time / 3600.0;
         }
     }
 
-- 
2.43.0


From d8f74c0d8f70a218e79a2c2e14a92b33e77a5952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:32 +0000
Subject: [PATCH 26/37] fix: move a vehicle at most one cell per interval
 (multimodal)

The cells of a multimodal CTM link moved from the first to the last, and a
bus held at its stop left its share of the outflow to the vehicles behind it,
so a bus or truck that had just moved into the cell moved on at once and
could run through a whole link faster than free flow.
---
 src/multimodal.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 78cbd5d..daad5e9 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -4655,11 +4655,15 @@ MNM_Dlink_Ctm_Multimodal::evolve (TInt timestamp)
   /* update volume */
   update_out_veh ();
 
+  /* last cell first: a bus held at a stop leaves its place to the vehicles
+     behind it, so one that has just moved into a cell could move again */
+  move_veh_queue_in_last_cell (timestamp);
+
   TInt _num_veh_tomove_car, _num_veh_tomove_truck;
   /* previous cells */
   if (m_num_cells > 1)
     {
-      for (int i = 0; i < m_num_cells - 1; ++i)
+      for (int i = m_num_cells - 2; i >= 0; --i)
         {
           // Car
           _num_veh_tomove_car = m_cell_array[i]->m_out_veh_car;
@@ -4674,8 +4678,6 @@ MNM_Dlink_Ctm_Multimodal::evolve (TInt timestamp)
         }
     }
 
-  /* last cell */
-  move_veh_queue_in_last_cell (timestamp);
   m_tot_wait_time_at_intersection
     += TFlt (m_finished_array.size ()) / m_flow_scalar * m_unit_time;
 
-- 
2.43.0


From 83f52ee2349c3fdf55f159f694d8e2e89b434b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:51 +0000
Subject: [PATCH 27/37] fix: move multimodal travellers in an order that does
 not depend on heap addresses

---
 src/multimodal.cpp | 21 +++++++++++----------
 src/multimodal.h   | 10 ++++++----
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index daad5e9..ba32aea 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2507,12 +2507,15 @@ MNM_Origin_Multimodal::MNM_Origin_Multimodal (TInt ID, TInt max_interval,
     : MNM_Origin_Multiclass::MNM_Origin_Multiclass (ID, max_interval,
                                                     flow_scalar, frequency)
 {
-  m_demand_bus = std::unordered_map<MNM_Destination_Multimodal *,
-                                    std::unordered_map<TInt, TFlt *>> ();
-  m_demand_pnr_car
-    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *> ();
+  m_demand_bus
+    = std::unordered_map<MNM_Destination_Multimodal *,
+                         std::unordered_map<TInt, TFlt *>,
+                         MNM_Destination_Hash> ();
+  m_demand_pnr_car = std::unordered_map<MNM_Destination_Multimodal *, TFlt *,
+                                        MNM_Destination_Hash> ();
   m_demand_passenger_bus
-    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *> ();
+    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *,
+                         MNM_Destination_Hash> ();
   m_walking_out_links_vec = std::vector<MNM_Walking_Link *> ();
   m_in_passenger_queue = std::deque<MNM_Passenger *> ();
   m_pickup_waiting_time = pickup_waiting_time;
@@ -3325,7 +3328,7 @@ MNM_Transit_Link::MNM_Transit_Link (TInt link_ID,
   m_fftt = TFlt (-1); // seconds
   m_unit_time = unit_time;
 
-  m_passenger_queue = std::unordered_map<MNM_Passenger *, TInt> ();
+  m_passenger_queue = std::deque<std::pair<MNM_Passenger *, TInt>> ();
   m_finished_array = std::deque<MNM_Passenger *> ();
   m_incoming_array = std::deque<MNM_Passenger *> ();
 
@@ -3630,8 +3633,7 @@ MNM_Bus_Link::clear_incoming_array (TInt timestamp)
       _passenger = *_passenger_it;
       IAssert (_passenger->get_current_link ()->m_link_ID == m_link_ID);
       _passenger->m_waiting_time = 0;
-      m_passenger_queue.insert (
-        std::pair<MNM_Passenger *, TInt> (_passenger, TInt (0)));
+      m_passenger_queue.emplace_back (_passenger, TInt (0));
       _passenger_it = m_incoming_array.erase (_passenger_it);
     }
   return 0;
@@ -3698,8 +3700,7 @@ MNM_Walking_Link::clear_incoming_array (TInt timestamp)
       if (_passenger->m_waiting_time <= 0)
         {
           _passenger->m_waiting_time = 0;
-          m_passenger_queue.insert (
-            std::pair<MNM_Passenger *, TInt> (_passenger, TInt (0)));
+          m_passenger_queue.emplace_back (_passenger, TInt (0));
           _passenger_it = m_incoming_array.erase (_passenger_it);
         }
       else
diff --git a/src/multimodal.h b/src/multimodal.h
index 27ddbe3..2a280be 100644
--- a/src/multimodal.h
+++ b/src/multimodal.h
@@ -432,12 +432,13 @@ public:
 
   // <Destination node, <routeID, time-varying demand>>
   std::unordered_map<MNM_Destination_Multimodal *,
-                     std::unordered_map<TInt, TFlt *>>
+                     std::unordered_map<TInt, TFlt *>, MNM_Destination_Hash>
     m_demand_bus;
   // <Destination node, time-varying demand>
-  std::unordered_map<MNM_Destination_Multimodal *, TFlt *> m_demand_pnr_car;
+  std::unordered_map<MNM_Destination_Multimodal *, TFlt *, MNM_Destination_Hash>
+    m_demand_pnr_car;
   // <Destination node, time-varying demand>
-  std::unordered_map<MNM_Destination_Multimodal *, TFlt *>
+  std::unordered_map<MNM_Destination_Multimodal *, TFlt *, MNM_Destination_Hash>
     m_demand_passenger_bus;
 
   std::deque<MNM_Passenger *> m_in_passenger_queue;
@@ -528,7 +529,8 @@ public:
 
   std::deque<MNM_Passenger *> m_incoming_array;
   // <passenger, time left to be moved to finished queue>
-  std::unordered_map<MNM_Passenger *, TInt> m_passenger_queue;
+  // in the order they came: an order by address would differ between runs
+  std::deque<std::pair<MNM_Passenger *, TInt>> m_passenger_queue;
   std::deque<MNM_Passenger *> m_finished_array;
 
   // recording passengers dar
-- 
2.43.0


From 270a073eae3489efc5d409fa96535e679d74fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:40 +0000
Subject: [PATCH 28/37] fix: start a bus ride at the whole interval its waiting
 time is counted from

---
 src/multimodal.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index ba32aea..b7c667b 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -11047,6 +11047,9 @@ get_travel_time_bus (MNM_Bus_Link *link, TFlt start_time, TFlt unit_interval,
                                 "m_N_in_bus cumulative curve is not installed");
     }
 
+  // the waiting time counts from the nearest whole interval, where the ride has
+  // to start from, too
+  start_time = TFlt (round (start_time));
   TFlt _wait_time
     = get_bus_waiting_time (link->m_from_busstop, start_time, unit_interval,
                             end_loading_timestamp, return_inf);
-- 
2.43.0


From 20c3c59599eb0dc6b8e3d04a444e9f587ab7dd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:40 +0000
Subject: [PATCH 29/37] fix: cap multimodal link travel times in seconds by a
 bound in seconds

---
 macposts/_ext/mmdta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index ecf2e84..a5059e8 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -4419,7 +4419,7 @@ Mmdta::get_path_tt_car (py::array_t<int> link_IDs,
                                          m_mmdta->m_unit_time,
                                          m_mmdta->m_current_loading_interval)
                   * m_mmdta->m_unit_time;
-              if (_tmp * m_mmdta->m_unit_time
+              if (_tmp
                   > TT_UPPER_BOUND * (_mclink->m_length / _mclink->m_ffs_car))
                 {
                   _tmp
@@ -4479,7 +4479,7 @@ Mmdta::get_path_tt_truck (py::array_t<int> link_IDs,
                                            m_mmdta->m_unit_time,
                                            m_mmdta->m_current_loading_interval)
                   * m_mmdta->m_unit_time;
-              if (_tmp * m_mmdta->m_unit_time
+              if (_tmp
                   > TT_UPPER_BOUND * (_mclink->m_length / _mclink->m_ffs_truck))
                 {
                   _tmp
-- 
2.43.0


From 28379c198f113e18d3b8c8214c2c284d66120685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:27 +0000
Subject: [PATCH 30/37] fix: free arrays of link costs and queue times with
 delete[]

---
 macposts/_ext/dta.cpp   |  8 ++++----
 macposts/_ext/mcdta.cpp | 16 ++++++++--------
 src/dso.cpp             |  4 ++--
 src/due.cpp             |  4 ++--
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 2b237be..c198e4c 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -184,25 +184,25 @@ Dta::~Dta ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _it : m_link_congested)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested.clear ();
 
   for (auto _it : m_queue_dissipated_time)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time.clear ();
 }
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 8680d54..700197d 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -310,49 +310,49 @@ Mcdta::~Mcdta ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _tt_it : m_link_tt_map_truck)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map_truck.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _cost_it : m_link_cost_map_truck)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map_truck.clear ();
 
   for (auto _it : m_link_congested_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_car.clear ();
 
   for (auto _it : m_link_congested_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_truck.clear ();
 
   for (auto _it : m_queue_dissipated_time_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_car.clear ();
 
   for (auto _it : m_queue_dissipated_time_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_truck.clear ();
 
diff --git a/src/dso.cpp b/src/dso.cpp
index 44b0428..1fb031f 100644
--- a/src/dso.cpp
+++ b/src/dso.cpp
@@ -11,12 +11,12 @@ MNM_Dso::~MNM_Dso ()
 {
   for (auto _it : m_link_congested)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested.clear ();
   for (auto _it : m_queue_dissipated_time)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time.clear ();
 }
diff --git a/src/due.cpp b/src/due.cpp
index d4fa8ed..ebb3fa9 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -398,12 +398,12 @@ MNM_Due_Msa::~MNM_Due_Msa ()
 {
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
   delete m_base_dta;
-- 
2.43.0


From 2644a534618121c3e58be9a47fa05d11d47ed212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:54 +0000
Subject: [PATCH 31/37] fix: keep path flows non-negative when departure-time
 choice adds a path

---
 src/due.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index ebb3fa9..4fb91d8 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -646,14 +646,17 @@ MNM_Due_Msa::update_path_table (MNM_Dta *dta, int iter)
 
               // Original
               _path->allocate_buffer (m_total_assign_inter);
-              _path->m_buffer[_best_assign_col]
-                += m_step_size / TFlt (iter + 1);
               _len = TFlt (_path_set->m_path_vec.size ());
               for (auto tmp_path : _path_set->m_path_vec)
                 {
-                  tmp_path->m_buffer[_best_assign_col]
-                    -= m_step_size / TFlt (iter + 1) / _len;
+                  // cannot take more than what is on the path
+                  _tmp_change
+                    = std::min (tmp_path->m_buffer[_best_assign_col],
+                                m_step_size / TFlt (iter + 1) / _len);
+                  tmp_path->m_buffer[_best_assign_col] -= _tmp_change;
+                  _tot_change += _tmp_change;
                 }
+              _path->m_buffer[_best_assign_col] += _tot_change;
               _path_set->m_path_vec.push_back (_path);
 
               // Modified by Zou
-- 
2.43.0


From b1176e89b6b1ebab41a4f9026b686f6bd6d1f806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:05 +0000
Subject: [PATCH 32/37] fix: count emission trips by vehicle ID, not by the
 reused vehicle pointer

---
 src/multiclass.cpp | 8 ++++----
 src/multiclass.h   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 55ec0e6..5af6a59 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -5956,8 +5956,8 @@ MNM_Cumulative_Emission_Multiclass::MNM_Cumulative_Emission_Multiclass (
 
   m_ev_label_truck = ev_label_truck;
 
-  m_car_set = std::unordered_set<MNM_Veh *> ();
-  m_truck_set = std::unordered_set<MNM_Veh *> ();
+  m_car_set = std::unordered_set<TInt> ();
+  m_truck_set = std::unordered_set<TInt> ();
 }
 
 MNM_Cumulative_Emission_Multiclass::~MNM_Cumulative_Emission_Multiclass () { ; }
@@ -6142,11 +6142,11 @@ MNM_Cumulative_Emission_Multiclass::update (MNM_Veh_Factory *veh_factory)
         {
           if (_veh_multiclass->m_class == 0)
             {
-              m_car_set.insert (_veh_multiclass);
+              m_car_set.insert (_veh_multiclass->m_veh_ID);
             }
           if (_veh_multiclass->m_class == 1)
             {
-              m_truck_set.insert (_veh_multiclass);
+              m_truck_set.insert (_veh_multiclass->m_veh_ID);
             }
         }
     }
diff --git a/src/multiclass.h b/src/multiclass.h
index b877881..8a44db2 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -796,8 +796,8 @@ public:
 
   TInt m_ev_label_truck;
 
-  std::unordered_set<MNM_Veh *> m_car_set;
-  std::unordered_set<MNM_Veh *> m_truck_set;
+  std::unordered_set<TInt> m_car_set; // vehicle IDs
+  std::unordered_set<TInt> m_truck_set; // vehicle IDs
 };
 
 /******************************************************************************************************************
-- 
2.43.0


From 83c99d2f0d62ce0558dd714ad0f0a48dafd73cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:27 +0000
Subject: [PATCH 33/37] fix: silence() keeps a descriptor's inheritability

---
 macposts/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macposts/utils.py b/macposts/utils.py
index 4b2b063..a3729e6 100644
--- a/macposts/utils.py
+++ b/macposts/utils.py
@@ -31,12 +31,13 @@ def silence(fd=STDOUT_FD):
         yield
         return
 
+    inheritable = os.get_inheritable(fd)
     save = os.dup(fd)
     null = os.open(os.devnull, os.O_RDWR)
-    os.dup2(null, fd)
+    os.dup2(null, fd, inheritable)
     try:
         yield
     finally:
-        os.dup2(save, fd)
+        os.dup2(save, fd, inheritable)
         os.close(null)
         os.close(save)
-- 
2.43.0


From 382a1e63099ddca946e9a44e4c1eaf21e82ec258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:52 +0000
Subject: [PATCH 34/37] fix: read the integer arguments of Mmdta's queue
 queries as integers

---
 macposts/_ext/mmdta.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index a5059e8..bc448d1 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -6767,8 +6767,8 @@ Mmdta::get_queue_veh_each_link (py::array_t<int> useful_links,
   auto result = py::array_t<double> (new_shape);
   auto result_buf = result.request ();
   double *result_ptr = (double *) result_buf.ptr;
-  double *intervals_ptr = (double *) intervals_buf.ptr;
-  double *links_ptr = (double *) links_buf.ptr;
+  int *intervals_ptr = (int *) intervals_buf.ptr;
+  int *links_ptr = (int *) links_buf.ptr;
 
   for (int t = 0; t < num_intervals; ++t)
     {
@@ -6819,8 +6819,8 @@ Mmdta::get_queue_passenger_each_link (py::array_t<int> useful_links,
   auto result = py::array_t<double> (new_shape);
   auto result_buf = result.request ();
   double *result_ptr = (double *) result_buf.ptr;
-  double *intervals_ptr = (double *) intervals_buf.ptr;
-  double *links_ptr = (double *) links_buf.ptr;
+  int *intervals_ptr = (int *) intervals_buf.ptr;
+  int *links_ptr = (int *) links_buf.ptr;
 
   for (int t = 0; t < num_intervals; ++t)
     {
-- 
2.43.0


From 5460dab963306bd18c8e8843c07e58f788324650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:52 +0000
Subject: [PATCH 35/37] fix: refuse node sequences without a link between two
 of their nodes

---
 macposts/_ext/mmdta.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index bc448d1..6532c98 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -3553,6 +3553,7 @@ Mmdta::node_seq_to_link_seq_driving (py::array_t<int> node_IDs)
 
   for (int i = 0; i < m - 1; ++i)
     {
+      result_ptr[i] = -1;
       for (const auto &l :
            m_mmdta->m_graph.connections (nodes_ptr[i], Direction::Outgoing))
         {
@@ -3601,6 +3602,7 @@ Mmdta::node_seq_to_link_seq_bustransit (py::array_t<int> node_IDs)
 
   for (int i = 0; i < m - 1; ++i)
     {
+      result_ptr[i] = -1;
       for (const auto &l :
            m_mmdta->m_bus_transit_graph.connections (nodes_ptr[i],
                                                      Direction::Outgoing))
-- 
2.43.0


From 7e51e94ec7b6e21fc80e43724d9513fa39d0ed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:55 +0000
Subject: [PATCH 36/37] fix: refuse negative intervals in queue queries, which
 read before the record

---
 macposts/_ext/mcdta.cpp | 3 ++-
 macposts/_ext/mmdta.cpp | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 700197d..2394033 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -3106,7 +3106,8 @@ Mcdta::get_queue_veh_each_link (py::array_t<int> useful_links,
 
   for (int t = 0; t < num_intervals; ++t)
     {
-      if (intervals_ptr[t] >= get_cur_loading_interval ())
+      if (intervals_ptr[t] < 0
+          || intervals_ptr[t] >= get_cur_loading_interval ())
         {
           throw std::runtime_error (
             "Error, Mcdta::get_queue_veh_each_link, input start intervals "
diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 6532c98..3913b47 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -6774,7 +6774,8 @@ Mmdta::get_queue_veh_each_link (py::array_t<int> useful_links,
 
   for (int t = 0; t < num_intervals; ++t)
     {
-      if (intervals_ptr[t] >= get_cur_loading_interval ())
+      if (intervals_ptr[t] < 0
+          || intervals_ptr[t] >= get_cur_loading_interval ())
         {
           throw std::runtime_error (
             "Error, Mmdta::get_queue_veh_each_link, input intervals "
@@ -6826,7 +6827,8 @@ Mmdta::get_queue_passenger_each_link (py::array_t<int> useful_links,
 
   for (int t = 0; t < num_intervals; ++t)
     {
-      if (intervals_ptr[t] >= get_cur_loading_interval ())
+      if (intervals_ptr[t] < 0
+          || intervals_ptr[t] >= get_cur_loading_interval ())
         {
           throw std::runtime_error (
             "Error, Mmdta::get_queue_passenger_each_link, input intervals "
-- 
2.43.0


From 6ec178b4787a4ff4e931432a985c47c29cb07276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:14 +0000
Subject: [PATCH 37/37] fix: name the origin in every row of
 get_od_mode_connectivity

---
 macposts/_ext/mmdta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 3913b47..846f39f 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -4882,9 +4882,9 @@ Mmdta::get_od_mode_connectivity ()
   int i = 0;
   for (const auto &_o_it : m_mmdue->m_od_mode_connectivity)
     {
-      result_ptr[i * _num_col] = _o_it.first;
       for (const auto &_d_it : _o_it.second)
         {
+          result_ptr[i * _num_col] = _o_it.first;
           result_ptr[i * _num_col + 1] = _d_it.first;
           for (auto _mode_it : _d_it.second)
             {
-- 
2.43.0

