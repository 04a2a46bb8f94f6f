From 7a9694939ef3b2fc03b13d39f0ab91fcc65b7269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:23 +0000
Subject: [PATCH 01/28] fix: read soil rows whose quoted name contains blanks

sscanf's %s stopped at the blank in "Sandy-clay loam" and "Silty-clay loam", so
those soil types silently got the parameters of the preceding row. The wilting
point moisture was computed from an uninitialised vg_m, and a name of exactly
MAX_SOIL_NAME_CHARS characters overflowed soil_name.
---
 src/lgar.cxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4a09fd0..1fdbce6 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2285,12 +2285,12 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   // local vars
   FILE *in_vG_params_fptr = NULL;
   char jstr[256];
-  char soil_name[30];
+  char soil_name[256];
   // bool error;
   int length;
   int num_soils_in_file = 0;             // soil counter
   int soil = 1;
-  double theta_e,theta_r,vg_n,vg_m,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
+  double theta_e,theta_r,vg_n,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
   double m,p,lambda;
 
   // open the file
@@ -2303,10 +2303,14 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   //for(soil=1;soil<=num_soil_types;soil++) {// read the num_soil_types lines with data
   while (fgets(jstr,255,in_vG_params_fptr) != NULL) {
 
-    sscanf(jstr,"%s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    // soil names are quoted and may contain blanks (e.g., "Sandy-clay loam"); unquoted single-word names are accepted too
+    if (sscanf(jstr," \"%255[^\"]\" %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h) != 6 &&
+	sscanf(jstr,"%255s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h) != 6)
+      continue; // not a soil (e.g., blank line)
+
     length=strlen(soil_name);
 
-    if(length>MAX_SOIL_NAME_CHARS) {
+    if(length>=MAX_SOIL_NAME_CHARS) {
       printf("While reading vG soil parameter file: %s, soil name longer than allowed.  Increase MAX_SOIL_NAME_CHARS\n",
 	     vG_param_file_name);
       printf("Program stopped.\n");
@@ -2321,7 +2325,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     soil_properties[soil].vg_m            = 1-1/vg_n;
     soil_properties[soil].Ksat_cm_per_h   = Ksat_cm_per_h;
     soil_properties[soil].theta_wp = calc_theta_from_h(wilting_point_psi_cm, vg_alpha_per_cm,
-						       vg_m, vg_n, theta_e, theta_r);
+						       soil_properties[soil].vg_m, vg_n, theta_e, theta_r);
 
     // Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib
     if (1.0 < vg_n) {
-- 
2.43.0


From 9658e83d2c6a6b3af50783343d5609fcda0ffc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:26 +0000
Subject: [PATCH 02/28] fix: reject a config without layer_thickness or soil_z
 before using them

num_layers was read uninitialised (and layer_soil_type out of bounds) when
layer_thickness is missing or longer than layer_soil_type, and num_cells_temp
was used as an allocation size before the missing-soil_z check.
---
 src/lgar.cxx | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 1fdbce6..a0a6ec0 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -233,6 +233,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   bool is_ponded_depth_max_cm_set   = false;
 
   string soil_params_file;
+  int num_layer_soil_types          = 0;     // number of entries in layer_soil_type
 
   // a temporary array to store the original (hourly based) giuh values
   std::vector<double> giuh_ordinates_temp;
@@ -295,6 +296,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
       for (unsigned int layer=1; layer <= vec.size(); layer++)
       	state->lgar_bmi_params.layer_soil_type[layer] = vec[layer-1];
 
+      num_layer_soil_types   = vec.size();
       is_layer_soil_type_set = true;
 
       continue;
@@ -550,6 +552,24 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     throw runtime_error(errMsg.str());
   }
     
+  if (!is_layer_thickness_set) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
+    throw runtime_error(errMsg.str());
+  }
+
+  if (num_layer_soil_types < state->lgar_bmi_params.num_layers) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_soil_type for every layer in layer_thickness. \n";
+    throw runtime_error(errMsg.str());
+  }
+
+  if(!is_wilting_point_psi_cm_set) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' does not set wilting_point_psi. \n Recommended value of 15495.0[cm], corresponding to 15 atm. \n";
+    throw runtime_error(errMsg.str());
+  }
+
   if(is_soil_params_file_set) {
     //allocate memory to create an array of structures to hold the soils properties data.
     //state->soil_properties = (struct soil_properties_*) malloc((state->lgar_bmi_params.num_layers+1)*sizeof(struct soil_properties_));
@@ -593,12 +613,6 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     throw runtime_error(errMsg.str());
   }
   
-  if (!is_layer_thickness_set) {
-    stringstream errMsg;
-    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
-    throw runtime_error(errMsg.str());
-  }
-
   if (!is_initial_psi_set) {
     stringstream errMsg;
     errMsg << "The configuration file \'" << config_file <<"\' does not set initial_psi. \n";
@@ -617,12 +631,6 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     throw runtime_error(errMsg.str());
   }
 
-  if(!is_wilting_point_psi_cm_set) {
-    stringstream errMsg;
-    errMsg << "The configuration file \'" << config_file <<"\' does not set wilting_point_psi. \n Recommended value of 15495.0[cm], corresponding to 15 atm. \n";
-    throw runtime_error(errMsg.str());
-  }
-
   if(!is_field_capacity_psi_cm_set) {
     stringstream errMsg;
     errMsg << "The configuration file \'" << config_file <<"\' does not set field_capacity_psi. \n Recommended value of 340.9[cm] for most soils, corresponding to 1/3 atm, or 103.3[cm] for sands, corresponding to 1/10 atm. \n";
@@ -664,12 +672,12 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (state->lgar_bmi_params.sft_coupled) {
-    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
     if (!is_soil_z_set) {
       stringstream errMsg;
       errMsg << "The configuration file \'" << config_file <<"\' does not set soil_z. \n";
       throw runtime_error(errMsg.str());
     }
+    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
   }
   else {
     //NJF FIXME these arrays should be allocated based on num_cells_temp...
-- 
2.43.0


From d833a56641b5ddab5bcc45e9382c9c5cdb914a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:37 +0000
Subject: [PATCH 03/28] fix: soil types without parameters pass precipitation
 through in the right amount

A soil type above the number of rows read (or below 1) indexed soil_properties
out of bounds or used uninitialised parameters; such types now take the
documented pass-through. The pass-through reported the hourly rate as the amount
for any forcing resolution and did not advance the model time.
---
 src/bmi_lgar.cxx | 17 +++++++++++------
 src/lgar.cxx     |  8 +++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 38e42a1..869c778 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -88,15 +88,20 @@ Update()
   double mm_to_m = 0.001;
   
   if (state->lgar_bmi_params.is_invalid_soil_type) {
+    // rate [mm/h] x forcing resolution [h] = amount of precipitation [mm]
+    double precip_mm = state->lgar_bmi_input_params->precipitation_mm_per_h * state->lgar_bmi_params.forcing_resolution_h;
+
+    state->lgar_bmi_params.time_s += state->lgar_bmi_params.forcing_resolution_h * state->units.hr_to_sec;
+
     // add to mass balance accumulated variables
-    state->lgar_mass_balance.volprecip_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volprecip_cm  += precip_mm * mm_to_cm;
     state->lgar_mass_balance.volin_cm       = 0.0;
     state->lgar_mass_balance.volon_cm       = 0.0;
     state->lgar_mass_balance.volend_cm      = state->lgar_mass_balance.volstart_cm;
     state->lgar_mass_balance.volAET_cm      = 0.0;
     state->lgar_mass_balance.volrech_cm     = 0.0;
-    state->lgar_mass_balance.volrunoff_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
-    state->lgar_mass_balance.volQ_cm       += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volrunoff_cm  += precip_mm * mm_to_cm;
+    state->lgar_mass_balance.volQ_cm       += precip_mm * mm_to_cm;
     state->lgar_mass_balance.volQ_gw_cm     = 0.0;
     state->lgar_mass_balance.volPET_cm      = 0.0;
     state->lgar_mass_balance.volrunoff_giuh_cm  = 0.0;
@@ -104,13 +109,13 @@ Update()
 
     // converted values, a struct local to the BMI and has bmi output variables
     bmi_unit_conv.mass_balance_m        = 0.0;
-    bmi_unit_conv.volprecip_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volprecip_timestep_m  = precip_mm * mm_to_m;
     bmi_unit_conv.volin_timestep_m      = 0.0;
     bmi_unit_conv.volend_timestep_m     = 0.0;
     bmi_unit_conv.volAET_timestep_m     = 0.0;
     bmi_unit_conv.volrech_timestep_m    = 0.0;
-    bmi_unit_conv.volrunoff_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
-    bmi_unit_conv.volQ_timestep_m       = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volrunoff_timestep_m  = precip_mm * mm_to_m;
+    bmi_unit_conv.volQ_timestep_m       = precip_mm * mm_to_m;
     bmi_unit_conv.volQ_gw_timestep_m    = 0.0;
     bmi_unit_conv.volPET_timestep_m     = 0.0;
     bmi_unit_conv.volrunoff_giuh_timestep_m = 0.0;
diff --git a/src/lgar.cxx b/src/lgar.cxx
index a0a6ec0..d5e139f 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -575,7 +575,8 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     //state->soil_properties = (struct soil_properties_*) malloc((state->lgar_bmi_params.num_layers+1)*sizeof(struct soil_properties_));
 
 
-    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+1];
+    // zero-initialized; index 0 is not a soil, invalid soil types (see below) refer to it
+    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+1]();
     int num_soil_types = state->lgar_bmi_params.num_soil_types;
     double wilting_point_psi_cm = state->lgar_bmi_params.wilting_point_psi_cm;
     double field_capacity_psi_cm = state->lgar_bmi_params.field_capacity_psi_cm;
@@ -587,14 +588,15 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     for (int layer=1; layer <= state->lgar_bmi_params.num_layers; layer++) {
       //assert (state->lgar_bmi_params.layer_soil_type[layer] <= state->lgar_bmi_params.num_soil_types);
       //assert (state->lgar_bmi_params.layer_soil_type[layer] <= max_num_soil_in_file);
-      if (state->lgar_bmi_params.layer_soil_type[layer] > state->lgar_bmi_params.num_soil_types) {
+      if (state->lgar_bmi_params.layer_soil_type[layer] < 1 ||
+	  state->lgar_bmi_params.layer_soil_type[layer] > max_num_soil_in_file) {
 	state->lgar_bmi_params.is_invalid_soil_type = true;
 	if (verbosity.compare("high") == 0) {
 	  std::cerr << "Invalid soil type: "
 		    << state->lgar_bmi_params.layer_soil_type[layer]
 		    <<". Model returns input_precip = ouput_Qout. \n";
 	}
-	break;
+	state->lgar_bmi_params.layer_soil_type[layer] = 0; // no soil properties exist for this type
       }
     }
 
-- 
2.43.0


From 1cd2d39c1d870937a035d904bdbfbe12f1956cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:53 +0000
Subject: [PATCH 04/28] fix: honour max_valid_soil_types above 15

configs/README.md gives 15 as the default, not as a limit, and the Bushland
example (soil types 16-18, max_valid_soil_types=25) silently ran in the
invalid-soil pass-through.
---
 include/all.hxx | 2 +-
 src/lgar.cxx    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/all.hxx b/include/all.hxx
index a3c3fd2..611a596 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -116,7 +116,7 @@ struct lgar_bmi_parameters
   double forcing_resolution_h;     // forcing resolution in hours
   double minimum_timestep_h;       // minimum time step in hours, only used if adaptive_timestep is true
   int    forcing_interval;         // = forcing_resolution_h/timestep_h
-  int    num_soil_types;           // number of soil types; must be less than or equal to MAX_NUM_SOIL_TYPES
+  int    num_soil_types;           // number of valid soil types (max_valid_soil_types); defaults to MAX_NUM_SOIL_TYPES
   double AET_cm;                   // actual evapotranspiration in cm
 
   //double *soil_moisture_layers;    // 1D array of thetas (mean soil moisture content) per layer; output option to other models if needed
diff --git a/src/lgar.cxx b/src/lgar.cxx
index d5e139f..b76c719 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -154,7 +154,7 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   @param timestep_h             : model timestep in hours
   @param forcing_resolution_h   : forcing resolution in hours
   @param forcing_interval       : factor equals to forcing_resolution_h/timestep_h (used to determine model subtimestep's forcings)
-  @param num_soil_types         : number of soil types; must be less than or equal to MAX_NUM_SOIL_TYPES
+  @param num_soil_types         : number of valid soil types (max_valid_soil_types); defaults to MAX_NUM_SOIL_TYPES
   @param AET_cm                 : actual evapotranspiration in cm
   @param soil_temperature       : 1D (double) array of soil temperature [K]; bmi input for coupling lasam to soil freeze thaw model
   @param soil_temperature_z     : 1D (double) array of soil discretization associated with temperature profile [m];
@@ -353,7 +353,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
       continue;
     }
     else if (param_key == "max_valid_soil_types") {
-      state->lgar_bmi_params.num_soil_types = std::min(stoi(param_value), MAX_NUM_SOIL_TYPES);
+      state->lgar_bmi_params.num_soil_types = stoi(param_value);
       is_max_valid_soil_types_set = true;
       continue;
     }
-- 
2.43.0


From f1f889218b71e275cc309dd55b40a37c6d514ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:57 +0000
Subject: [PATCH 05/28] fix: GetGridShape writes one entry per rank-1 grid

Grid 3 was written to shape[1], past the end of a rank-1 shape array, and
grids 0, 1 and 4 left the shape unset.
---
 src/bmi_lgar.cxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 869c778..a7cf9dd 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -825,10 +825,8 @@ GetVarLocation(std::string name)
 void BmiLGAR::
 GetGridShape(const int grid, int *shape)
 {
-  if (grid == 2)
-    shape[0] = this->state->lgar_bmi_params.num_layers;
-  else if (grid == 3) // number of wetting fronts (dynamic)
-    shape[1] = this->state->lgar_bmi_params.num_wetting_fronts;
+  if (this->GetGridRank(grid) == 1) // all grids are rank 1
+    shape[0] = this->GetGridSize(grid);
 }
 
 
-- 
2.43.0


From d6af84830817188546be7272bb7c67210597590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:14 +0000
Subject: [PATCH 06/28] fix: soil_depth_layers returns the layer depths in
 metres

It returned cum_layer_thickness_cm from its unused 0th entry: 0 first, the
deepest layer missing, in cm although GetVarUnits says m.
---
 include/all.hxx  | 1 +
 src/bmi_lgar.cxx | 3 ++-
 src/lgar.cxx     | 4 ++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/all.hxx b/include/all.hxx
index 611a596..c99a632 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -110,6 +110,7 @@ struct lgar_bmi_parameters
   int    num_wetting_fronts;       // number of wetting fronts
   int    num_cells_temp;           // number of cells of the discretized soil temperature profile
   double *cum_layer_thickness_cm;  // cumulative thickness of layers, allocate memory at run time
+  double *soil_depth_layers_m;     // depth of the bottom of each layer [m] (0-indexed), bmi output
   double soil_depth_cm;            // depth of the computational domain (i.e., depth of the last/deepest soil layer from the surface)
   double initial_psi_cm;           // model initial (psi) condition
   double timestep_h;               // model timestep in hours
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index a7cf9dd..9037a7e 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -688,6 +688,7 @@ Finalize()
 
   delete [] state->lgar_bmi_params.layer_thickness_cm;
   delete [] state->lgar_bmi_params.cum_layer_thickness_cm;
+  delete [] state->lgar_bmi_params.soil_depth_layers_m;
   delete [] state->lgar_bmi_params.giuh_ordinates;
   delete [] state->lgar_bmi_params.frozen_factor;
   delete state->lgar_bmi_input_params;
@@ -917,7 +918,7 @@ GetValuePtr (std::string name)
   else if (name.compare("mass_balance") == 0)
     return (void*)(&bmi_unit_conv.mass_balance_m);
   else if (name.compare("soil_depth_layers") == 0)
-    return (void*)this->state->lgar_bmi_params.cum_layer_thickness_cm;  // this too and, if needed, change soil_moisture_layers to soil_thickness_layers
+    return (void*)this->state->lgar_bmi_params.soil_depth_layers_m;
   else if (name.compare("soil_moisture_wetting_fronts") == 0)
     return (void*)this->state->lgar_bmi_params.soil_moisture_wetting_fronts;
   else if (name.compare("soil_depth_wetting_fronts") == 0)
diff --git a/src/lgar.cxx b/src/lgar.cxx
index b76c719..1f0bc81 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -83,6 +83,10 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   state->lgar_bmi_params.soil_depth_wetting_fronts    = new double[state->lgar_bmi_params.num_wetting_fronts];
   state->lgar_bmi_params.soil_moisture_wetting_fronts = new double[state->lgar_bmi_params.num_wetting_fronts];
 
+  state->lgar_bmi_params.soil_depth_layers_m = new double[state->lgar_bmi_params.num_layers];
+  for (int i=0; i<state->lgar_bmi_params.num_layers; i++)
+    state->lgar_bmi_params.soil_depth_layers_m[i] = state->lgar_bmi_params.cum_layer_thickness_cm[i+1] * state->units.cm_to_m;
+
   // initialize array for holding calibratable parameters
   state->lgar_calib_params.theta_e  = new double[state->lgar_bmi_params.num_layers];
   state->lgar_calib_params.theta_r  = new double[state->lgar_bmi_params.num_layers];
-- 
2.43.0


From 585b11c916e4e83661bd6f0b941fd547ed90cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:31 +0000
Subject: [PATCH 07/28] fix: UpdateUntil advances the model to the requested
 time

It ran a single Update whatever time was asked for.
---
 src/bmi_lgar.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 9037a7e..5efc46b 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -570,7 +570,11 @@ void BmiLGAR::
 UpdateUntil(double t)
 {
   assert (t > 0.0);
-  this->Update();
+
+  // at least one update; each update advances the model by (at most) one forcing timestep
+  do {
+    this->Update();
+  } while (this->GetCurrentTime() < t - 1.0E-6 * this->GetTimeStep());
 }
 
 struct model_state* BmiLGAR::get_model()
-- 
2.43.0


From 78a31f177cb9f25370013c745e09bed0b54775e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:50 +0000
Subject: [PATCH 08/28] fix: the subtimesteps of an Update cover the whole
 forcing timestep

When the (adaptive) timestep does not divide the forcing resolution, the number
of subcycles was truncated: the rest of the forcing timestep, with its
precipitation and PET, was dropped, or all of it for a timestep longer than the
forcing resolution.
---
 src/bmi_lgar.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 5efc46b..c420fb0 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -205,9 +205,13 @@ Update()
     state->lgar_bmi_params.timestep_h = subtimestep_h;
   }
 
-  state->lgar_bmi_params.forcing_interval = int(state->lgar_bmi_params.forcing_resolution_h/state->lgar_bmi_params.timestep_h+1.0e-08); // add 1.0e-08 to prevent truncation error
+  state->lgar_bmi_params.forcing_interval = int(ceil(state->lgar_bmi_params.forcing_resolution_h/subtimestep_h-1.0e-08)); // subtract 1.0e-08 to prevent roundoff error
   subcycles = state->lgar_bmi_params.forcing_interval;
 
+  // shorten the subtimestep if it does not divide the forcing resolution (subcycles must cover the whole forcing timestep)
+  if (fabs(subcycles * subtimestep_h - state->lgar_bmi_params.forcing_resolution_h) > 1.0e-08 * state->lgar_bmi_params.forcing_resolution_h)
+    subtimestep_h = state->lgar_bmi_params.forcing_resolution_h / subcycles;
+
   if (verbosity.compare("high") == 0) {
     printf("time step size in hours: %lf \n", state->lgar_bmi_params.timestep_h);
   }
-- 
2.43.0


From 25b90231aafd22f9ebd6b107bc2d88355afbff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:06 +0000
Subject: [PATCH 09/28] fix: GIUH ordinates for forcing resolutions that do not
 divide an hour

The hourly ordinates were spread over int(1/resolution) intervals: none at all
for a resolution above one hour (giuh_convolution_integral then wrote before the
start of its queue), and over too short a time for e.g. 40 minutes.
---
 src/lgar.cxx | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 1f0bc81..c8bb6e7 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -650,15 +650,19 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (is_giuh_ordinates_set) {
-    int factor = int(1.0/state->lgar_bmi_params.forcing_resolution_h);
+    // distribute the hourly ordinates over intervals of the forcing resolution, which need not divide (or be shorter than) an hour
+    double resolution_h = state->lgar_bmi_params.forcing_resolution_h;
+    int num_hourly_ordinates = giuh_ordinates_temp.size() - 1;
 
-    state->lgar_bmi_params.num_giuh_ordinates = factor * (giuh_ordinates_temp.size() - 1);
+    state->lgar_bmi_params.num_giuh_ordinates = int(ceil(num_hourly_ordinates/resolution_h - 1.0e-08)); // subtract 1.0e-08 to prevent roundoff error
     state->lgar_bmi_params.giuh_ordinates = new double[state->lgar_bmi_params.num_giuh_ordinates+1];
-    
-    for (int i=0; i<giuh_ordinates_temp.size()-1; i++) {
-      for (int j=0; j<factor; j++) {
-        int index = j + i * factor + 1;
-        state->lgar_bmi_params.giuh_ordinates[index] = giuh_ordinates_temp[i+1]/double(factor);
+
+    for (int index=1; index<=state->lgar_bmi_params.num_giuh_ordinates; index++) {
+      state->lgar_bmi_params.giuh_ordinates[index] = 0.0;
+      for (int i=0; i<num_hourly_ordinates; i++) {
+	double overlap_h = fmin(index*resolution_h, i+1) - fmax((index-1)*resolution_h, i);
+	if (overlap_h > 0.0)
+	  state->lgar_bmi_params.giuh_ordinates[index] += giuh_ordinates_temp[i+1] * overlap_h;
       }
     }
     
-- 
2.43.0


From c70add81791c54f1c1b1a1a91cdb81013d2475ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:59 +0000
Subject: [PATCH 10/28] fix: do not read past the soil temperature profile

The bound was only checked after reading soil_temperature_z[c], so the layer
after the one that used the last cell read past the end of the array.
---
 src/lgar.cxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index c8bb6e7..8936e99 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -842,13 +842,11 @@ extern void frozen_factor_hydraulic_conductivity(struct lgar_bmi_parameters lgar
     layer_temp = 0.0;
     count = 0;
 
-    while (lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
+    // c < num_cells_temp to ensure we don't access out of bound values
+    while (c < lgar_bmi_params.num_cells_temp && lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
       layer_temp +=lgar_bmi_params.soil_temperature[c];
       c++;
       count++;
-
-      if (c == lgar_bmi_params.num_cells_temp) // to ensure we don't access out of bound values
-	break;
     }
 
 
-- 
2.43.0


From 59559f40159e99eb42612a18799d995c979e8122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:59 +0000
Subject: [PATCH 11/28] fix: apply the frozen factor of the layer the
 conductivity belongs to, once

A new surficial front got K * frozen_factor^2, and the infiltration capacity of
a front in a deeper layer used the top layer's frozen factor.
---
 src/lgar.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 8936e99..8e93f67 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1992,7 +1992,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
   if (number_of_wetting_fronts == num_layers) {
     Geff = 0.0; // i.e., case of no capillary suction, dz/dt is also zero for all wetting fronts
     soil_num = soil_type[layer_num_fp];
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num]; //23 feb 2024
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp]; //23 feb 2024
   }
   else {
 
@@ -2009,7 +2009,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
     vg_n     = soil_properties[soil_num].vg_n;
     double lambda = soil_properties[soil_num].bc_lambda;
     double bc_psib_cm = soil_properties[soil_num].bc_psib_cm;
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num];
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp];
 
     // Se = calc_Se_from_theta(theta,theta_e,theta_r);
     // psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
@@ -2168,7 +2168,7 @@ extern void lgar_create_surficial_front(int num_layers, double *ponded_depth_cm,
   Se = calc_Se_from_theta(theta_new,theta_e,theta_r);
   current->psi_cm = calc_h_from_Se(Se, vg_alpha_per_cm , vg_m, vg_n);
 
-  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m) * frozen_factor[layer_num]; // AJ - K_temp in python version for 1st layer
+  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m); // AJ - K_temp in python version for 1st layer
 
   current->dzdt_cm_per_h = 0.0; //for now assign 0 to dzdt as it will be computed/updated in lgar_dzdt_calc function
 
-- 
2.43.0


From 9596d190b5bc5fa1c6da1b8444da7b4ae8bc57d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 12/28] fix: keep K(theta) of near-saturated wetting fronts up
 to date

The psi > 1 cm guard added for the psi update also skipped the K update, so a
front that gets within 1 cm of saturation kept the K of its former, drier state
(or of another layer) and moved at the wrong speed.
---
 src/lgar.cxx | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 8e93f67..612836b 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1524,21 +1524,20 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
   for (int wf=1; wf != listLength(*head); wf++) {
 
-    if (current->psi_cm>1.0){
-      int soil_num_k    = soil_type[current->layer_num];
+    int soil_num_k    = soil_type[current->layer_num];
 
-      double theta_e_k   = soil_properties[soil_num_k].theta_e;
-      double theta_r_k   = soil_properties[soil_num_k].theta_r;
-      double vg_a_k      = soil_properties[soil_num_k].vg_alpha_per_cm;
-      double vg_m_k      = soil_properties[soil_num_k].vg_m;
-      double vg_n_k      = soil_properties[soil_num_k].vg_n;
+    double theta_e_k   = soil_properties[soil_num_k].theta_e;
+    double theta_r_k   = soil_properties[soil_num_k].theta_r;
+    double vg_a_k      = soil_properties[soil_num_k].vg_alpha_per_cm;
+    double vg_m_k      = soil_properties[soil_num_k].vg_m;
+    double vg_n_k      = soil_properties[soil_num_k].vg_n;
 
-      double Ksat_cm_per_h_k  = frozen_factor[current->layer_num] * soil_properties[soil_num_k].Ksat_cm_per_h;
+    double Ksat_cm_per_h_k  = frozen_factor[current->layer_num] * soil_properties[soil_num_k].Ksat_cm_per_h;
 
-      double Se = calc_Se_from_theta(current->theta,theta_e_k,theta_r_k);
+    double Se = calc_Se_from_theta(current->theta,theta_e_k,theta_r_k);
+    if (current->psi_cm>1.0)
       current->psi_cm = calc_h_from_Se(Se, vg_a_k, vg_m_k, vg_n_k); 
-      current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h_k, vg_m_k);
-    }
+    current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h_k, vg_m_k);
     current = current->next;
 
   }
-- 
2.43.0


From 127697803b06dc8f52a8d52059e3e5058415fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:01 +0000
Subject: [PATCH 13/28] fix: pair each layer's thickness with its own
 conductivity in dz/dt

For a front in the third or a deeper layer the sum of L_n/K_n paired the
thickness of layer k with the conductivity of layer layer_num-k.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 612836b..577af15 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2493,7 +2493,7 @@ extern void lgar_dzdt_calc(bool use_closed_form_G, int nint, double h_p, int *so
 	double K_cm_per_h_prev_loc = calc_K_from_Se(Se_prev_loc,soil_properties[soil_num_loc].Ksat_cm_per_h * frozen_factor[layer_num-k],
 						    soil_properties[soil_num_loc].vg_m);
 
-	denominator += (cum_layer_thickness_cm[k] - cum_layer_thickness_cm[k-1])/ K_cm_per_h_prev_loc;
+	denominator += (cum_layer_thickness_cm[layer_num-k] - cum_layer_thickness_cm[layer_num-(k+1)])/ K_cm_per_h_prev_loc;
 
       }
 
-- 
2.43.0


From 8c262db66568b87c5339df5198b9a5028c8169a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:28 +0000
Subject: [PATCH 14/28] fix: recompute Brooks-Corey parameters for calibrated
 soils

---
 include/all.hxx  |  1 +
 src/bmi_lgar.cxx |  1 +
 src/lgar.cxx     | 49 ++++++++++++++++++++++++++++--------------------
 3 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/include/all.hxx b/include/all.hxx
index c99a632..e0d422b 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -278,6 +278,7 @@ extern double lgar_calc_dry_depth(bool use_closed_form_G, int nint, double times
 // reads van Genuchten parameters from a file
 extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_types, double wilting_point_psi_cm,
                                     struct soil_properties_ *soil_properties);
+extern void                     lgar_calc_bc_params(struct soil_properties_ *soil);
 
 // creates a surficial front (new top most wetting front)
 extern void lgar_create_surficial_front(int num_layers, double *ponded_depth_cm, double *volin, double dry_depth,
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index c420fb0..b8c5d0e 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -626,6 +626,7 @@ update_calibratable_parameters()
     state->soil_properties[soil].vg_m    = 1.0 - 1.0/state->soil_properties[soil].vg_n;
     state->soil_properties[soil].vg_alpha_per_cm = state->lgar_calib_params.vg_alpha[layer_num-1];
     state->soil_properties[soil].Ksat_cm_per_h   = state->lgar_calib_params.Ksat[layer_num-1];
+    lgar_calc_bc_params(&state->soil_properties[soil]);
     
     current->theta = calc_theta_from_h(current->psi_cm, state->soil_properties[soil].vg_alpha_per_cm,
 				       state->soil_properties[soil].vg_m, state->soil_properties[soil].vg_n,
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 577af15..9f9fa35 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2285,6 +2285,34 @@ double lgar_calc_mass_bal(double *cum_layer_thickness, struct wetting_front* hea
   return sum;
 }
 
+// ############################################################################################
+/* The module computes the Brooks & Corey parameters of a soil from its van Genuchten parameters */
+// ############################################################################################
+extern void lgar_calc_bc_params(struct soil_properties_ *soil)
+{
+  double m,p,lambda;
+
+  // Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib
+  if (1.0 < soil->vg_n) {
+    m = 1.0 - 1.0 / soil->vg_n;
+    p = 1.0 + 2.0 / m;
+    soil->bc_lambda  = 2.0 / (p - 3.0);
+    soil->bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
+      (2.0 * soil->vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
+    assert(0.0 < soil->bc_psib_cm);
+  }
+  else {
+    fprintf(stderr, "ERROR: van Genuchten parameter n must be greater than 1\n");
+    //error = TRUE;  // TODO FIXME - what todo in this ccase?
+  }
+
+  /* this is the effective capillary drive after */
+  /* Morel-Seytoux et al. (1996) eqn. 13 or 15 */
+  /* psi should not be less than this value.  */
+  lambda=soil->bc_lambda;
+  soil->h_min_cm = soil->bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
+}
+
 // ############################################################################################
 /* The module reads the soil parameters.
    Open file to read in the van Genuchten parameters for standard soil types*/
@@ -2306,7 +2334,6 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   int num_soils_in_file = 0;             // soil counter
   int soil = 1;
   double theta_e,theta_r,vg_n,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
-  double m,p,lambda;
 
   // open the file
   if((in_vG_params_fptr=fopen(vG_param_file_name,"r"))==NULL) {
@@ -2342,25 +2369,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     soil_properties[soil].theta_wp = calc_theta_from_h(wilting_point_psi_cm, vg_alpha_per_cm,
 						       soil_properties[soil].vg_m, vg_n, theta_e, theta_r);
 
-    // Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib
-    if (1.0 < vg_n) {
-      m = 1.0 - 1.0 / vg_n;
-      p = 1.0 + 2.0 / m;
-      soil_properties[soil].bc_lambda  = 2.0 / (p - 3.0);
-      soil_properties[soil].bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
-	(2.0 * vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
-      assert(0.0 < soil_properties[soil].bc_psib_cm);
-    }
-    else {
-      fprintf(stderr, "ERROR: van Genuchten parameter n must be greater than 1\n");
-      //error = TRUE;  // TODO FIXME - what todo in this ccase?
-    }
-
-    /* this is the effective capillary drive after */
-    /* Morel-Seytoux et al. (1996) eqn. 13 or 15 */
-    /* psi should not be less than this value.  */
-    lambda=soil_properties[soil].bc_lambda;
-    soil_properties[soil].h_min_cm = soil_properties[soil].bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
+    lgar_calc_bc_params(&soil_properties[soil]);
     num_soils_in_file++;
     soil++;
 
-- 
2.43.0


From 4970fac0c8cee6be98b396b3f78b6e50898fbe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:42 +0000
Subject: [PATCH 15/28] fix: calibrate layers that share a soil type separately

---
 src/bmi_lgar.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index b8c5d0e..0c10e95 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -603,6 +603,16 @@ update_calibratable_parameters()
   
   double volstart_before = lgar_calc_mass_bal(state->lgar_bmi_params.cum_layer_thickness_cm, state->head);
 
+  // calibratable parameters are per layer: layers that share a soil type get their own copy of its properties
+  int num_layers = state->lgar_bmi_params.num_layers;
+  struct soil_properties_ *layer_soil_properties = new struct soil_properties_[num_layers+1]();
+  for (int layer=1; layer<=num_layers; layer++) {
+    layer_soil_properties[layer] = state->soil_properties[state->lgar_bmi_params.layer_soil_type[layer]];
+    state->lgar_bmi_params.layer_soil_type[layer] = layer;
+  }
+  delete [] state->soil_properties;
+  state->soil_properties = layer_soil_properties;
+
   for (int i=0; i<state->lgar_bmi_params.num_wetting_fronts; i++) {//first we update the parameters that depend on soil layer, for each layer
     layer_num  = current->layer_num;
     soil = state->lgar_bmi_params.layer_soil_type[layer_num];
-- 
2.43.0


From 96a8e467f788ff7d591267bc0589953f822f477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:31 +0000
Subject: [PATCH 16/28] fix: merge wetting fronts until none has passed the one
 below it

---
 src/lgar.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 9f9fa35..102ef5b 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1633,6 +1633,11 @@ extern void lgar_merge_wetting_fronts(int *soil_type, double *frozen_factor, str
         printf ("Deleting wetting front (after) ... \n");
         listPrint(*head);
       }
+
+      // the depth of the merged wetting front has changed, so check all wetting fronts again
+      current = *head;
+      wf = 0;
+      continue;
     }
     
     current = current->next;
-- 
2.43.0


From 91a46b877307068b7c9cb86df6830fe95850d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:29 +0000
Subject: [PATCH 17/28] fix: wetting fronts that cross several boundaries in
 one timestep

---
 src/lgar.cxx | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 102ef5b..ead5ed9 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1470,19 +1470,22 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
   lgar_merge_wetting_fronts(soil_type, frozen_factor, head, soil_properties);
 
 
-  // ************************ CROSS LAYER *********************************
-  lgar_wetting_fronts_cross_layer_boundary(num_layers, cum_layer_thickness_cm, soil_type, frozen_factor,
-					   head, soil_properties);
+  // a wetting front can cross more than one layer boundary, with merging in between
+  for (int layer=1; layer<=num_layers; layer++) {
+    // ************************ CROSS LAYER *********************************
+    lgar_wetting_fronts_cross_layer_boundary(num_layers, cum_layer_thickness_cm, soil_type, frozen_factor,
+					     head, soil_properties);
 
 
-  // *************************** MERGE ************************************
-  // check if dry over wet wetting fronts exist before calling merge
-  is_dry_over_wet_wf = lgar_check_dry_over_wet_wetting_fronts(*head);
+    // *************************** MERGE ************************************
+    // check if dry over wet wetting fronts exist before calling merge
+    is_dry_over_wet_wf = lgar_check_dry_over_wet_wetting_fronts(*head);
   
-  if (is_dry_over_wet_wf)
-    lgar_fix_dry_over_wet_wetting_fronts(&mass_change, cum_layer_thickness_cm, soil_type, head, soil_properties);
+    if (is_dry_over_wet_wf)
+      lgar_fix_dry_over_wet_wetting_fronts(&mass_change, cum_layer_thickness_cm, soil_type, head, soil_properties);
 
-  lgar_merge_wetting_fronts(soil_type, frozen_factor, head, soil_properties);
+    lgar_merge_wetting_fronts(soil_type, frozen_factor, head, soil_properties);
+  }
 
   // ************************ CROSS BOUNDARY ********************************
   
@@ -1810,16 +1813,16 @@ extern double lgar_wetting_front_cross_domain_boundary(double domain_depth_cm, i
       double Se_k = calc_Se_from_theta(current->theta,theta_e,theta_r);
       next->psi_cm = calc_h_from_Se(Se_k, vg_a, vg_m, vg_n);
       next->K_cm_per_h = calc_K_from_Se(Se_k, Ksat_cm_per_h, vg_m);
-      current = listDeleteFront(current->front_num, head);
+      listDeleteFront(current->front_num, head);
       bottom_flux_cm += bottom_flux_cm_temp; 
-      break;
+
+      // the wetting front above may have reached the bottom of the domain too
+      current = *head;
+      wf = 0;
+      continue;
     }
     
     current = current->next;
-
-    if (bottom_flux_cm_temp!=0){//PTL: perhaps due to potential problems with precision error, this should just be replaces with a flag that gets toggled when bottom_boundary_flux_cm is changed from 0 to nonzero
-      break;
-    }
   }
 
   if (verbosity.compare("high") == 0) {
-- 
2.43.0


From 2e83a62a5f724fffec52dd60aaaa364112d2ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:57 +0000
Subject: [PATCH 18/28] fix: read the unit of a config value up to its closing
 bracket

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index ead5ed9..36a245c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -256,7 +256,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     bool is_unit = line.find("[") != string::npos;
 
     if (is_unit)
-      param_unit = line.substr(loc_u,line.find("]")+1);
+      param_unit = line.substr(loc_u,line.find("]")+1-loc_u);
     else
       param_unit = "";
 
-- 
2.43.0


From 75440b143a68b043a3e5aa82fbe8d1542c365a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:25 +0000
Subject: [PATCH 19/28] fix: do not touch a wetting front after deleting it

A front in the top layer whose water content falls below theta_r is deleted
while the fronts move; its psi was then computed and stored through the
dangling pointer (heap use after free).
---
 src/lgar.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 36a245c..eead748 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1204,6 +1204,8 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 	printf("case (wetting front within a layer) : layer_num (%d) == layer_num_below (%d) \n", layer_num,layer_num_below);
       }
 
+      bool is_wf_deleted = false; // true if theta of the current wetting front went below theta_r and the front was deleted
+
       // if wetting front is the most surficial wetting front
       if (layer_num == 1) {
 
@@ -1230,6 +1232,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
         //it requires a fairly unusual soil, which I encountered during random parameter sampling.
         double mass_before_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head) - current->depth_cm*(current->theta - (prior_mass/current->depth_cm + next->theta));
         listDeleteFront(current->front_num, head);
+        is_wf_deleted = true;
         double mass_after_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head);
         *AET_demand_cm = *AET_demand_cm - fabs(mass_before_theta_went_below_theta_r - mass_after_theta_went_below_theta_r);
         actual_ET_demand = *AET_demand_cm;
@@ -1326,8 +1329,10 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
       }
 
-      double Se = calc_Se_from_theta(current->theta,theta_e,theta_r);
-      current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
+      if (!is_wf_deleted) {
+        double Se = calc_Se_from_theta(current->theta,theta_e,theta_r);
+        current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
+      }
 
     }
   
-- 
2.43.0


From 6efcb4c48772f246aa87244c286187ee51cb289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:42 +0000
Subject: [PATCH 20/28] fix: read the last forcing row once when the file does
 not end in a newline

---
 src/bmi_main_lgar.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index a106c8b..c9624f2 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -232,8 +232,7 @@ ReadForcingData(std::string config_file, std::vector<std::string>& time, std::ve
   //read first line of strings which contains forcing variables names.
   std::getline(fp, line);
 
-  while (fp) {
-    std::getline(fp, line);
+  while (std::getline(fp, line)) {
     std::stringstream lineStream(line);
     int count = 0;
     while(std::getline(lineStream,cell, ',')) {
-- 
2.43.0


From f5305acee1ecac3982921b0961aaa7b1f4e4bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:42 +0000
Subject: [PATCH 21/28] fix: reject max_valid_soil_types below 1 before
 allocating the soil table

---
 src/lgar.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index eead748..93f1f6a 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -550,6 +550,12 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     std::cerr<<"          *****         \n";
   }
 
+  if (state->lgar_bmi_params.num_soil_types < 1) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' sets max_valid_soil_types to less than 1. \n";
+    throw runtime_error(errMsg.str());
+  }
+
   if (!is_layer_soil_type_set) {
     stringstream errMsg;
     errMsg << "The configuration file \'" << config_file <<"\' does not set layer_soil_type. \n";
-- 
2.43.0


From b20fb5adf303564519c13cbd0c4eaf80d09b9e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:51 +0000
Subject: [PATCH 22/28] fix: do not lose the last time step to roundoff in the
 standalone program

---
 src/bmi_main_lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index c9624f2..370a2de 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -77,7 +77,7 @@ int main(int argc, char *argv[])
   // get time steps
   double endtime = model_state.GetEndTime();
   double timestep = model_state.GetTimeStep();
-  int nsteps = int(endtime/timestep); // total number of time steps
+  int nsteps = int(endtime/timestep + 1.0e-08); // total number of time steps; add 1.0e-08 to prevent truncation error
 
   std::vector<std::string> time;
   std::vector<double> precipitation;
-- 
2.43.0


From 6d82ae275e2f49eaac5779cd124af6536dc2c602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:01 +0000
Subject: [PATCH 23/28] fix: keep iterating when the last step of the mass
 balance search went past the solution

A soil dried to the largest head the search goes to (1e7 cm) starts the next
step there. The first increment then oversteps, the search stopped with the
front drier than the demanded evapotranspiration requires, and the difference
was subtracted from AET instead of added: negative AET, and a mass balance
error that aborts the run.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 93f1f6a..4926343 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2665,7 +2665,7 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
     if (count_no_mass_change == break_no_mass_change)
       break;
     
-    if (psi_cm_loc > 1e7){//there are rare cases where theta is very close to theta_r, and delta_mass - delta_mass_prev will change extremely slowly. Convergence might be possible but the model will take hours to converge rather than seconds. 
+    if (psi_cm_loc > 1e7 && new_mass > prior_mass){//there are rare cases where theta is very close to theta_r, and delta_mass - delta_mass_prev will change extremely slowly. Convergence might be possible but the model will take hours to converge rather than seconds. 
     //an alternative solution was to change the threshold in if (fabs(delta_mass - delta_mass_prev) < 1e-15) to 1e-11, but that solution is somewhat slow. 
       break;
     }
-- 
2.43.0


From 3c63e364dfcb683b2f512d21f62512117f4940b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:59 +0000
Subject: [PATCH 24/28] fix: infiltrate when the ponded water reaches exactly
 the maximum depth

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4926343..d9815e6 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2103,7 +2103,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
       *ponded_depth_cm     = *ponded_depth_cm - *volin_this_timestep;
       return runoff;
     }
-    else if (ponded_depth_temp > ponded_depth_max_cm ) {
+    else { // the maximum ponded depth is reached (exactly) or exceeded
       runoff = ponded_depth_temp - ponded_depth_max_cm;
       *ponded_depth_cm     = ponded_depth_max_cm;
       *volin_this_timestep = fp_cm;
-- 
2.43.0


From 9e8f45a73df3a070dbc4ebe0c5d816bcba2f0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:25 +0000
Subject: [PATCH 25/28] fix: a front crossing a layer boundary got a NaN depth
 when it held no water

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index d9815e6..0893001 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1734,7 +1734,7 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers,
 
       double mbal_correction = overshot_depth * (current_theta - next->theta);
       double mbal_Z_correction = mbal_correction / (theta_new - next_to_next->theta); // this is the new wetting front depth
-      if (isinf(mbal_Z_correction)){//in some rare cases, due to (very) different shapes of soil water rentention curves in adjacent soil layers near saturation, the WF that crossed a layer bdy can yield a theta value identical to the one below it, resulting in division by 0 and an infinite WF depth. 
+      if (!isfinite(mbal_Z_correction)){//in some rare cases, due to (very) different shapes of soil water rentention curves in adjacent soil layers near saturation, the WF that crossed a layer bdy can yield a theta value identical to the one below it, resulting in division by 0 and an infinite WF depth. 
         mbal_Z_correction = cum_layer_thickness_cm[layer_num+1]/(1e3);
       }
 
-- 
2.43.0


From 401eafbd78fad7c3e0d5181c55e4ae31099d8a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:25 +0000
Subject: [PATCH 26/28] fix: removing a deep front must not overwrite shallower
 fronts that hold water of their own

---
 src/lgar.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 0893001..9aa1325 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1892,7 +1892,11 @@ extern void lgar_fix_dry_over_wet_wetting_fronts(double *mass_change, double* cu
 	  // now this is the wetting front that was below the dry wetting front
 	  current->psi_cm = calc_h_from_Se(Se_k, vg_a_k, vg_m_k, vg_n_k);
 
-	  struct wetting_front *current_local = *head; //In LGARTO, should be the highest to_bottom WF above the one that got deleted before the next to_bottom==FALSE one, but *head is fine for LGAR 
+	  // the highest to_bottom WF above the one that got deleted before the next to_bottom==FALSE one; any WF above that holds water of its own
+	  struct wetting_front *current_local = *head;
+	  for (struct wetting_front *wf = *head; wf->layer_num < layer_num_k; wf = wf->next)
+	    if (!wf->to_bottom)
+	      current_local = wf->next;
 
 	  // update psi and theta for all wetting fronts above the current wetting front
 	  while (current_local->layer_num < layer_num_k) {
-- 
2.43.0


From 17ada4c65a585bd6d9b85c5c28fc4ecc97512623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:18 +0000
Subject: [PATCH 27/28] fix: a front crossing a layer boundary got a negative
 depth when it held almost no water

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 9aa1325..fb6f956 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1734,7 +1734,7 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers,
 
       double mbal_correction = overshot_depth * (current_theta - next->theta);
       double mbal_Z_correction = mbal_correction / (theta_new - next_to_next->theta); // this is the new wetting front depth
-      if (!isfinite(mbal_Z_correction)){//in some rare cases, due to (very) different shapes of soil water rentention curves in adjacent soil layers near saturation, the WF that crossed a layer bdy can yield a theta value identical to the one below it, resulting in division by 0 and an infinite WF depth. 
+      if (!isfinite(mbal_Z_correction) || mbal_Z_correction < 0.0){//in some rare cases, due to (very) different shapes of soil water rentention curves in adjacent soil layers near saturation, the WF that crossed a layer bdy can yield a theta value identical to the one below it, resulting in division by 0 and an infinite WF depth. 
         mbal_Z_correction = cum_layer_thickness_cm[layer_num+1]/(1e3);
       }
 
-- 
2.43.0


From 7eb66451d54ca5dc365ab65877f3f76ec5586cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:11 +0000
Subject: [PATCH 28/28] fix: free the soil_z grid read from the configuration
 if the model is not coupled to soil freeze-thaw

---
 src/lgar.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index fb6f956..aaf7b6d 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -697,6 +697,8 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
   else {
     //NJF FIXME these arrays should be allocated based on num_cells_temp...
+    if (is_soil_z_set)
+      delete [] state->lgar_bmi_params.soil_temperature_z; // soil_z is not used if not coupled
     state->lgar_bmi_params.soil_temperature   = new double[1]();
     state->lgar_bmi_params.soil_temperature_z = new double[1]();
     state->lgar_bmi_params.num_cells_temp     = 1;
-- 
2.43.0

