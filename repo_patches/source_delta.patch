From 9a68bb707e0eaddff90b8e06960786112d2eac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 01/10] fix: element (0,2) of the yaw-pitch-roll rotation is
 cy*sp*cr+sy*sr

---
 src/genYAML/src/urdf2dh_inertial.cpp                 | 2 +-
 src/thunder/src/FrameOffset.cpp                      | 4 ++--
 src/thunder/src/utils.cpp                            | 2 +-
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/genYAML/src/urdf2dh_inertial.cpp b/src/genYAML/src/urdf2dh_inertial.cpp
index 7cbbf2d..bc836fe 100644
--- a/src/genYAML/src/urdf2dh_inertial.cpp
+++ b/src/genYAML/src/urdf2dh_inertial.cpp
@@ -94,7 +94,7 @@ namespace thunder_ns{
         //template R yaw-pitch-roll
         rotTr(0,0)=cy*cp;
         rotTr(0,1)=cy*sp*sr-sy*cr;
-        rotTr(0,2)=cy*sp*cr-sy*sr;
+        rotTr(0,2)=cy*sp*cr+sy*sr;
         rotTr(1,0)=sy*cp;
         rotTr(1,1)=sy*sp*sr+cy*cr;
         rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/FrameOffset.cpp b/src/thunder/src/FrameOffset.cpp
index 9ade626..7860700 100644
--- a/src/thunder/src/FrameOffset.cpp
+++ b/src/thunder/src/FrameOffset.cpp
@@ -55,7 +55,7 @@ namespace thunder_ns{
 		//template rotation yaw-pitch-roll
 		R(0,0)=cy*cp;
 		R(0,1)=cy*sp*sr-sy*cr;
-		R(0,2)=cy*sp*cr-sy*sr;
+		R(0,2)=cy*sp*cr+sy*sr;
 		R(1,0)=sy*cp;
 		R(1,1)=sy*sp*sr+cy*cr;
 		R(1,2)=sy*sp*cr-cy*sr;
@@ -94,7 +94,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 315ec68..09c3c8a 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -77,7 +77,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 0b06891..458e120 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -800,7 +800,7 @@ Eigen::Matrix3d thunder_robot::rpyRot(const std::vector<double> rpy){
 	//template R yaw-pitch-roll
 	rotTr(0,0)=cy*cp;
 	rotTr(0,1)=cy*sp*sr-sy*cr;
-	rotTr(0,2)=cy*sp*cr-sy*sr;
+	rotTr(0,2)=cy*sp*cr+sy*sr;
 	rotTr(1,0)=sy*cp;
 	rotTr(1,1)=sy*sp*sr+cy*cr;
 	rotTr(1,2)=sy*sp*cr-cy*sr;
-- 
2.43.0


From 032c37c24873634046b97ba1c764c1ce97e08ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 02/10] fix: elastic coupling of a joint uses that joint's own
 link position and velocity

---
 src/thunder/src/dynamics.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/dynamics.cpp b/src/thunder/src/dynamics.cpp
index d07014d..1a35aec 100644
--- a/src/thunder/src/dynamics.cpp
+++ b/src/thunder/src/dynamics.cpp
@@ -299,6 +299,11 @@ namespace thunder_ns{
 			// 		Dm(i) += pow(dx(i), ord+1) * par_Dm(i*Dm_order+ord);
 			// 	}
 			// }
+			// index of the joint each elastic element is mounted on
+			std::vector<int> el;
+			for (int i=0; i<nj; i++){
+				if (isElasticJoint[i]) el.push_back(i);
+			}
 			// function vectors
 			casadi::SX k(numElasticJoints,1);
 			casadi::SX d(numElasticJoints,1);
@@ -313,15 +318,15 @@ namespace thunder_ns{
 			casadi::SX Mm(numElasticJoints,numElasticJoints);
 			for (int i=0; i<numElasticJoints; i++){
 				for (int ord=0; ord<K_order; ord++){
-					k(i) += pow(x(i)-q(i), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
+					k(i) += pow(x(i)-q(el[i]), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
 					K_vec[ord].resize(numElasticJoints,numElasticJoints);
 					K_vec[ord](i,i) = par_K(i*K_order + ord);
 				}
 				for (int ord=0; ord<D_order; ord++){
 					if (ord%2 == 0){
-						d(i) += pow(dx(i)-dq(i), ord+1) * par_D(i*D_order+ord);
+						d(i) += pow(dx(i)-dq(el[i]), ord+1) * par_D(i*D_order+ord);
 					} else {
-						d(i) += sqrt(pow(dx(i)-dq(i), 2)) * pow(dx(i)-dq(i), ord) * par_D(i*D_order+ord);
+						d(i) += sqrt(pow(dx(i)-dq(el[i]), 2)) * pow(dx(i)-dq(el[i]), ord) * par_D(i*D_order+ord);
 					}
 					D_vec[ord].resize(numElasticJoints,numElasticJoints);
 					D_vec[ord](i,i) = par_D(i*D_order + ord);
-- 
2.43.0


From 818c7076c47e8041bdafe640e6f2be895f9377ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 03/10] fix: load_par_REG reads the layout that save_par_REG
 writes (dynamics/<link>/inertial)

---
 src/thunder/src/robot.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 3a902f2..fbc0b94 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -725,35 +725,36 @@ namespace thunder_ns{
 	casadi::SX Robot::load_par_REG(std::string file, bool update_DYN){
 		// Eigen::VectorXd param_REG;
 		casadi::SX param_REG(STD_PAR_LINK*numJoints,1);
-		casadi::SX param_Dl(Dl_order*numJoints,1);
+		casadi::SX param_Dl = Dl_order > 0 ? args["par_Dl"] : casadi::SX(0,1); // kept where the file has no friction
 		// casadi::SX::zeros(numJoints,1)
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
 			YAML::Node config_file = YAML::LoadFile(file);
 			// load inertial
-			YAML::Node inertial = config_file["inertial"];
+			YAML::Node dynamics = config_file["dynamics"];
 			int i = 0;
-			for (const auto& node : inertial) {
+			for (const auto& node : dynamics) {
 				
 				if (i==numJoints) break;
 				std::string linkName = node.first.as<std::string>();
+				YAML::Node inertial = node.second["inertial"];
 				
 				// standard parameters
-				param_REG(STD_PAR_LINK*i) = node.second["mass"].as<double>();
-				param_REG(STD_PAR_LINK*i+1) = node.second["m_CoM_x"].as<double>();
-				param_REG(STD_PAR_LINK*i+2) = node.second["m_CoM_y"].as<double>();
-				param_REG(STD_PAR_LINK*i+3) = node.second["m_CoM_z"].as<double>();
-				param_REG(STD_PAR_LINK*i+4) = node.second["Ixx"].as<double>();
-				param_REG(STD_PAR_LINK*i+5) = node.second["Ixy"].as<double>();
-				param_REG(STD_PAR_LINK*i+6) = node.second["Ixz"].as<double>();
-				param_REG(STD_PAR_LINK*i+7) = node.second["Iyy"].as<double>();
-				param_REG(STD_PAR_LINK*i+8) = node.second["Iyz"].as<double>();
-				param_REG(STD_PAR_LINK*i+9) = node.second["Izz"].as<double>();
+				param_REG(STD_PAR_LINK*i) = inertial["mass"].as<double>();
+				param_REG(STD_PAR_LINK*i+1) = inertial["m_CoM_x"].as<double>();
+				param_REG(STD_PAR_LINK*i+2) = inertial["m_CoM_y"].as<double>();
+				param_REG(STD_PAR_LINK*i+3) = inertial["m_CoM_z"].as<double>();
+				param_REG(STD_PAR_LINK*i+4) = inertial["Ixx"].as<double>();
+				param_REG(STD_PAR_LINK*i+5) = inertial["Ixy"].as<double>();
+				param_REG(STD_PAR_LINK*i+6) = inertial["Ixz"].as<double>();
+				param_REG(STD_PAR_LINK*i+7) = inertial["Iyy"].as<double>();
+				param_REG(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();
+				param_REG(STD_PAR_LINK*i+9) = inertial["Izz"].as<double>();
 
 				// link friction
-				if (node.second["Dl"]){
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+				if (node.second["friction"] && node.second["friction"]["Dl"] && param_Dl.size1() == Dl_order*numJoints){
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
 						param_Dl(Dl_order*i + j) = Dl[j];
 					}
-- 
2.43.0


From 4c9ed166d109bcf900edba320459904574682b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 04/10] fix: setting the dynamic or regressor parameters
 updates the other vector; get_par_DYN returns the stored entries only

---
 src/thunder/src/robot.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index fbc0b94..5d1d712 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -507,18 +507,18 @@ namespace thunder_ns{
 
 	int Robot::set_par_DYN(Eigen::VectorXd value){
 		casadi::SX& par_DYN = args["par_DYN"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_DYN.size1(); // only the symbolic entries, once the functions are computed
 		if (value.size() == numPar){
 			for (int i=0; i<numPar; i++){
 				par_DYN(i) = value(i);
 			}
+			// change par_REG
+			update_inertial_REG();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		// change par_REG
-		update_inertial_REG();
 	}
 
 	int Robot::set_par_REG(Eigen::VectorXd value){
@@ -528,12 +528,13 @@ namespace thunder_ns{
 			for (int i=0; i<numPar; i++){
 				par_REG(i) = value(i);
 			}
+			// change par_DYN
+			update_inertial_DYN();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		update_inertial_DYN();
 	}
 
 
@@ -548,7 +549,7 @@ namespace thunder_ns{
 
 	Eigen::VectorXd Robot::get_par_DYN(){
 		const casadi::SX& par_DYN_casadi = args["par_DYN"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_DYN_casadi.size1();
 		Eigen::VectorXd param_DYN(numPar);
 		std::vector<casadi::SXElem> res_elements = par_DYN_casadi.get_elements();
 		std::transform(res_elements.begin(), res_elements.end(), param_DYN.data(), mapFunction);
@@ -918,6 +919,8 @@ namespace thunder_ns{
 
 	int Robot::update_inertial_DYN(){
 		// not efficient, should be made in casadi
+		casadi::SX& par_DYN = args["par_DYN"];
+		if (par_DYN.size1() != STD_PAR_LINK*numJoints) return 0; // non-symbolic entries are no more stored
 		Eigen::VectorXd param_REG = get_par_REG();
 		Eigen::VectorXd param_DYN(STD_PAR_LINK*numJoints);
 		for (int i=0; i<numJoints; i++){
@@ -936,12 +939,14 @@ namespace thunder_ns{
 			// }
 			param_DYN.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, CoM, I-I_tmp_v;
 		}
-		set_par_DYN(param_DYN);
+		for (int i=0; i<STD_PAR_LINK*numJoints; i++) par_DYN(i) = param_DYN(i);
 		return 1;
 	}
 
 	int Robot::update_inertial_REG(){
 		// not efficient, should be made in casadi
+		casadi::SX& par_REG = args["par_REG"];
+		if (args["par_DYN"].size1() != STD_PAR_LINK*numJoints) return 0; // non-symbolic entries are no more stored
 		Eigen::VectorXd param_DYN = get_par_DYN();
 		// cout<<"param_DYN:"<<endl<<param_DYN<<endl<<endl;
 		Eigen::VectorXd param_REG(STD_PAR_LINK*numJoints);
@@ -969,7 +974,7 @@ namespace thunder_ns{
 			// }
 			param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, m_CoM, I+I_tmp_v;
 		}
-		set_par_REG(param_REG);
+		for (int i=0; i<STD_PAR_LINK*numJoints; i++) par_REG(i) = param_REG(i);
 		return 1;
 	}
 
-- 
2.43.0


From c2c545dc9f8b48f6a9424e53e2905bae2f0bae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 05/10] fix: selection vectors of surplus links, or longer than
 their link, no more overflow into other entries

---
 src/thunder/src/robot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 5d1d712..6a531f2 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -118,10 +118,12 @@ namespace thunder_ns{
 			YAML::Node dynamics = config_file["dynamics"];
 			int link_index = 0;
 			for (const auto& node : dynamics) {
+				if (link_index == nj) break; // surplus links
 				YAML::Node inertial = node.second["inertial"];
 				std::vector<int> link_symb;
 				if (inertial["symb"]) {
 					link_symb = inertial["symb"].as<std::vector<int>>();
+					link_symb.resize(STD_PAR_LINK);
 				} else {
 					link_symb.assign(STD_PAR_LINK, 0); // Default to non-symbolic
 				}
@@ -135,10 +137,12 @@ namespace thunder_ns{
 				par_Dl_symb.resize(this->Dl_order * nj);
 				link_index = 0;
 				for (const auto& node : dynamics) {
+					if (link_index == nj) break; // surplus links
 					YAML::Node friction = node.second["friction"];
 					std::vector<int> fric_symb;
 					if (friction["symb"]) {
 						fric_symb = friction["symb"].as<std::vector<int>>();
+						fric_symb.resize(this->Dl_order);
 					} else {
 						fric_symb.assign(this->Dl_order, 0);
 					}
-- 
2.43.0


From 81c9194f63b0f830ac734e7a2d3468e3d74a5f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 06/10] fix: genInertial_files reads the friction values from
 their section and ignores surplus links

---
 src/thunder/src/genYaml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thunder/src/genYaml.cpp b/src/thunder/src/genYaml.cpp
index 093daa6..a76971f 100644
--- a/src/thunder/src/genYaml.cpp
+++ b/src/thunder/src/genYaml.cpp
@@ -52,6 +52,7 @@ namespace thunder_ns{
 			int link_index = 0;
 			for (const auto& node : dynamics) {
 
+				if (link_index == num_joints) break; // surplus links
 				YAML::Node inertial = node.second["inertial"];
 				LinkProp properties;
 				std::string linkName = node.first.as<std::string>();
@@ -75,7 +76,7 @@ namespace thunder_ns{
 				if (Dl_order){
 					properties.Dl.resize(Dl_order);
 					YAML::Node friction = node.second["friction"];
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+					std::vector<double> Dl = friction["Dl"].as<std::vector<double>>();
 					properties.Dl = Dl;
 					// std::cout<<"Dl_read: " << Dl << std::endl;
 					// for (int j=0; j<Dl_order; j++){
-- 
2.43.0


From 4acee66a8119206cf920f6a7bcc004a7550870cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 07/10] fix: generated set_par_DYN/set_par_REG leave the other
 vector alone when they reject their argument

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 458e120..de44854 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -190,21 +190,21 @@ void thunder_robot::update_inertial_REG(){
 void thunder_robot::set_par_DYN(const Eigen::VectorXd& par_, bool update_REG){
 	if(par_.size() == par_DYN.size()){
 		par_DYN = par_;
+		// conversion from DYN to REG
+		if (update_REG)	update_inertial_REG();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_REG)	update_inertial_REG();
 }
 
 void thunder_robot::set_par_REG(const Eigen::VectorXd& par_, bool update_DYN){
 	if(par_.size() == par_REG.size()){
 		par_REG = par_;
+		// conversion from REG to DYN
+		if (update_DYN)	update_inertial_DYN();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_DYN)	update_inertial_DYN();
 }
 
 void thunder_robot::set_par_K(const Eigen::VectorXd& par_){
-- 
2.43.0


From 2d4bc6aee6e72508c5cb03d6250b85cbeb1a8ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 08/10] fix: generated load_par_REG restores the friction
 values that save_par_REG writes

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index de44854..8dc2789 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -349,6 +349,13 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 
 				par_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass,m_cmx,m_cmy,m_cmz,xx,xy,xz,yy,yz,zz;
 				
+				// - link friction - //
+				if (node.second["friction"] && node.second["friction"]["Dl"]){
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+					for (int j=0; j<Dl_order; j++){
+						par_Dl(Dl_order*i + j) = Dl[j];
+					}
+				}
 				i++;
 			}
 			if (update_DYN) update_inertial_DYN();
-- 
2.43.0


From 4c05caa12978e75d3736b60069af602dc247c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 09/10] fix: generated functions receive the symbolic entries
 of the dynamic, friction and elastic parameters

---
 src/thunder/src/utils.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 09c3c8a..95530b7 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -3,6 +3,7 @@
 #include <sstream>
 #include <iostream>
 #include <string>
+#include <algorithm>
 #include "robot.h"
 
 using namespace std;
@@ -103,6 +104,21 @@ namespace thunder_ns{
 		return I;
 	}
 
+	// pointer passed for an argument of a generated function; the generated class stores the dynamic parameters
+	// in full, while the functions take the symbolic entries only: when they differ, those are gathered in 'code'
+	static string get_fun_input(Robot& robot, const string& arg, string& code){
+		const std::vector<string> stored_full = {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"};
+		if (std::find(stored_full.begin(), stored_full.end(), arg) == stored_full.end()) return arg + ".data()";
+		const std::vector<int>& symb = robot.symb[arg];
+		if (std::find(symb.begin(), symb.end(), 0) == symb.end()) return arg + ".data()";
+		string entries = "";
+		for (int i=0; i<symb.size(); i++){
+			if (symb[i]) entries += (entries.empty() ? "" : ", ") + arg + "(" + to_string(i) + ")";
+		}
+		code.append("\tconst double " + arg + "_symb[] = {" + entries + "};\n");
+		return arg + "_symb";
+	}
+
 	int change_to_robot(const string from_robot, const string to_robot, Robot& robot, const string file_path_h, const string file_path_cpp, const bool gen_python){
 		
 		// - get parameters from robot - //
@@ -221,9 +237,13 @@ namespace thunder_ns{
 				if (fun_args.size() == 0){
 					functions_string.append("\tconst double** input_ = nullptr;\n");
 				} else {
-					functions_string.append("\tconst double* input_[] = {" + fun_args[0]+".data()");
+					std::vector<std::string> inputs;
+					for (int j=0; j<fun_args.size(); j++){
+						inputs.push_back(get_fun_input(robot, fun_args[j], functions_string));
+					}
+					functions_string.append("\tconst double* input_[] = {" + inputs[0]);
 					for (int j=1; j<fun_args.size(); j++){
-						functions_string.append(", " + fun_args[j]+".data()");
+						functions_string.append(", " + inputs[j]);
 					}
 					functions_string.append("};\n");
 				}
-- 
2.43.0


From 8ca44b2c36b2c89d47effbe098026698465a87c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 10/10] fix: header guard of robots whose name contains 'robot'

---
 src/thunder/src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 95530b7..44e84b0 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -147,6 +147,9 @@ namespace thunder_ns{
 
 			file_h.close(); // close the file_h
 
+			// - substitute 'from_robot' wiht 'to_robot' - //
+			replace_all(file_content_h, from_robot, to_robot);
+
 			// - change num_joints - //
 			string header = "THUNDERROBOT";
 			size_t index_header = file_content_h.find(header);
@@ -154,9 +157,6 @@ namespace thunder_ns{
 			index_header = file_content_h.find(header);
 			file_content_h.replace(index_header, header.length(), "THUNDER_" + to_robot);
 
-			// - substitute 'from_robot' wiht 'to_robot' - //
-			replace_all(file_content_h, from_robot, to_robot);
-
 			// - add variables - //
 			replace_all(file_content_h, "/*#-ROBOT_NAME-#*/", robotName);
 			replace_all(file_content_h, "/*#-n_joints-#*/", to_string(n_joints));
-- 
2.43.0

