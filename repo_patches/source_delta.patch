From 0d6585bb80aedeac413d7458a6b20b4f497170a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 01/19] fix: Pose constructors left quaternions longer than one
 unnormalised

---
 src/State/Pose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/State/Pose.cpp b/src/State/Pose.cpp
index 9226f77..695b125 100644
--- a/src/State/Pose.cpp
+++ b/src/State/Pose.cpp
@@ -11,7 +11,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const Eigen::Vector3d& position, const Eigen::Quaterniond& orientation):
 	position(position), orientation(orientation)
 	{
-		if(this->orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z()); 
 	}
 
@@ -22,7 +22,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const double& px, const double& py, const double& pz, const double& qw, const double& qx, const double& qy, const double& qz):
 	position(px,py,pz), orientation(qw,qx,qy,qz)
 	{
-		if(orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z());
 	}
 
-- 
2.43.0


From 35c07c74ae1b0aa35f0fef59969ac7561b10a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/19] fix: reference position of an obstacle built from a
 name was uninitialised

---
 src/Obstacle/Obstacle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/Obstacle.cpp b/src/Obstacle/Obstacle.cpp
index 4474d64..d3aed67 100644
--- a/src/Obstacle/Obstacle.cpp
+++ b/src/Obstacle/Obstacle.cpp
@@ -6,11 +6,11 @@
 namespace DynamicObstacleAvoidance
 {
 	Obstacle::Obstacle(const std::string& name, double safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
 	{}
 
 	Obstacle::Obstacle(const std::string& name, const Eigen::Array3d& safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
 	{}
 
 	Obstacle::Obstacle(const std::string& name, double cx, double cy, double cz, double safety_margin):
-- 
2.43.0


From 3b05dd8e471d237c9d6533c335235c6b80eb8159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 03/19] fix: agent envelope ignored the constructor arguments
 and set_safety_margin

---
 include/DynamicObstacleAvoidance/Agent.hpp | 1 +
 src/Agent.cpp                              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 24cf801..0003934 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -126,6 +126,7 @@ namespace DynamicObstacleAvoidance
 		inline void set_safety_margin(const double& safety_margin)
 		{ 
 			this->safety_margin = safety_margin;
+			this->update_envelope();
 		}
 
 		/**
diff --git a/src/Agent.cpp b/src/Agent.cpp
index 972099b..8e607c6 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -6,12 +6,14 @@ namespace DynamicObstacleAvoidance
 	safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const State& state, const double& safety_margin):
 	state(state), safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const Agent& agent):
-- 
2.43.0


From c2b56043d2b68a55d7032e971fa42537320c4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 04/19] fix: copied agents had no envelope and assigned agents
 shared one

---
 include/DynamicObstacleAvoidance/Agent.hpp |  5 +++++
 src/Agent.cpp                              | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 0003934..a3a9890 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -47,6 +47,11 @@ namespace DynamicObstacleAvoidance
 		 */
 		Agent(const Agent& agent);
 
+		/**
+		 * @brief Assignment operator, the envelope is not shared
+		 */
+		Agent& operator=(const Agent& agent);
+
 		/**
 		 * @brief Getter of the envelope
 		 * @return the envelope
diff --git a/src/Agent.cpp b/src/Agent.cpp
index 8e607c6..9391c8f 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -18,7 +18,19 @@ namespace DynamicObstacleAvoidance
 
 	Agent::Agent(const Agent& agent):
 	state(agent.state), safety_margin(agent.safety_margin), delta_t(agent.delta_t)
-	{}
+	{
+		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
+	}
+
+	Agent& Agent::operator=(const Agent& agent)
+	{
+		this->state = agent.state;
+		this->safety_margin = agent.safety_margin;
+		this->delta_t = agent.delta_t;
+		this->update_envelope();
+		return *this;
+	}
 
 	void Agent::update_envelope()
 	{
-- 
2.43.0


From f0b6bb24b77278c6e3336f5277fc0c1b49404f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 05/19] fix: line and ellipsoid intersection failed for lines
 along the y axis of the ellipsoid

---
 src/Obstacle/Ellipsoid.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 8e601a2..b0cf626 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -261,26 +261,27 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d rx1 = this->get_pose().inverse() * x1;
 		Eigen::Vector3d rx2 = this->get_pose().inverse() * x2;
 		// calculate the line passing by the two points
-		double a = (rx2(1) - rx1(1)) / (rx2(0) - rx1(0));
-		double b = rx1(1) - a * rx1(0);
+		// in parametric form, so that lines parallel to an axis are not a special case
+		double dx = rx2(0) - rx1(0);
+		double dy = rx2(1) - rx1(1);
 		// compute the intersection between the ellipsoid and the desired velocity line
 		Eigen::Array3d lengths = this->get_axis_lengths() + this->get_safety_margin();
 		double r1squared = lengths(0) * lengths(0);
 		double r2squared = lengths(1) * lengths(1);
-		double A = 1 / r1squared + (a*a) / r2squared;
-		double B = (2*a*b) / r2squared;
-		double C = (b*b) / r2squared - 1;
+		double A = (dx*dx) / r1squared + (dy*dy) / r2squared;
+		double B = 2 * ((rx1(0)*dx) / r1squared + (rx1(1)*dy) / r2squared);
+		double C = (rx1(0)*rx1(0)) / r1squared + (rx1(1)*rx1(1)) / r2squared - 1;
 		double delta = B*B - 4*A*C;
 		// solution
 		Eigen::Vector3d p1 = Eigen::Vector3d::Zero();
 		Eigen::Vector3d p2 = Eigen::Vector3d::Zero();
 		bool intersect = false;
-		if(delta >= 0)
+		if(A > 0 && delta >= 0)
 		{
-			double px1 = (-B - sqrt(delta)) / (2*A);
-			p1 << px1, a * px1 + b, 0;
-			double px2 = (-B + sqrt(delta)) / (2*A);
-			p2 << px2, a * px2 + b, 0;
+			double t1 = (-B - sqrt(delta)) / (2*A);
+			p1 << rx1(0) + t1 * dx, rx1(1) + t1 * dy, 0;
+			double t2 = (-B + sqrt(delta)) / (2*A);
+			p2 << rx1(0) + t2 * dx, rx1(1) + t2 * dy, 0;
 			p1 = this->get_pose() * p1;
 			p2 = this->get_pose() * p2;
 			intersect = true;
-- 
2.43.0


From 16546345fadeda5e825ade7e060282f7b32118c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 06/19] fix: find_closest_points returned an index past the end
 beyond the last point

---
 src/Utils/MathTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 38af9b3..79ed33a 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -87,8 +87,8 @@ namespace DynamicObstacleAvoidance
         std::vector<double> vec;
         for (int64_t i = 0; i < A.cols(); ++i) vec.push_back(A.col(i)(index));
         std::vector<double>::iterator it = std::lower_bound(std::begin(vec), std::end(vec), p(index));
-        unsigned int first_index = it - vec.begin();
-        unsigned int next_index = ((it + 1) - vec.begin()) % vec.size();
+        unsigned int first_index = (it - vec.begin()) % vec.size();
+        unsigned int next_index = (first_index + 1) % vec.size();
         return std::make_pair(first_index, next_index);
     }
 }
-- 
2.43.0


From 8d0a4405a2585a8145401b986a727892e1f6fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 07/19] fix: hull smoothing read points of the previous (or no)
 computation

---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 2d01726..b55f591 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -84,6 +84,7 @@ namespace DynamicObstacleAvoidance
 			}
 			surface_point(0) += safety(0);
 			surface_point(0) = std::max(this->min_radius, surface_point(0));
+			this->polar_surface_points.col(i) = surface_point;
 			// smooth function
 			if(i > 1)
 			{
@@ -91,7 +92,6 @@ namespace DynamicObstacleAvoidance
 				                                         0.05 * this->polar_surface_points.col(i-2)(0) + \
 				                                         0.05 * this->polar_surface_points.col(i)(0);
 			}
-			this->polar_surface_points.col(i) = surface_point;
 		}
 		// smooth 0 point with the last one
 		this->polar_surface_points.col(0)(0) = 0.9 * this->polar_surface_points.col(0)(0) + \
-- 
2.43.0


From 7a83576dff6866ad0228a637c9d91feb73557387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 08/19] fix: hull normal was not normalised

---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index b55f591..f410f18 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -115,7 +115,7 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d surface_point1 = this->cartesian_surface_points.col(idx.first);
 		Eigen::Vector3d surface_point2 = this->cartesian_surface_points.col(idx.second);
 
-		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ());
+		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
 
 	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d&) const
-- 
2.43.0


From 963b5e9799c552719b9155e6d7c6e85ed7a4af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 09/19] fix: dynamical system frame was not orthonormal for
 vertical and 3D velocities

---
 src/Modulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7fbc903..7272198 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -112,9 +112,10 @@ namespace DynamicObstacleAvoidance
 			Eigen::Vector3d cross_product = agent_relative_velocity.cross(unit_vector);
 			if(cross_product.norm() < 1E-4) 
 			{
-				cross_product = Eigen::Vector3d::UnitY();
+				unit_vector = Eigen::Vector3d::UnitY();
 				cross_product = agent_relative_velocity.cross(unit_vector);
 			}
+			cross_product.normalize();
 			Eigen::Matrix3d orthogonal_matrix;
 			orthogonal_matrix << agent_relative_velocity, cross_product, cross_product.cross(agent_relative_velocity);
 			return orthogonal_matrix;
-- 
2.43.0


From dea748bbc9665aea99de8e6551ecd074886d2e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 10/19] fix: modulation bases were not orthonormal or tangent
 to the surface in 3D

---
 src/Modulation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7272198..c98faa1 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -70,6 +70,8 @@ namespace DynamicObstacleAvoidance
 				tangent_vector = normal_vector.cross(unit_vector);
 			}
 
+			tangent_vector.normalize();
+
 			Eigen::Vector3d cross_product = tangent_vector.cross(normal_vector);
 			Eigen::Matrix3d orthogonal_basis;
 			orthogonal_basis << normal_vector, tangent_vector, cross_product;
@@ -82,9 +84,9 @@ namespace DynamicObstacleAvoidance
 				std::cerr << "Problem here" << std::endl;
 			}
 			
-			Eigen::Vector3d ref_cross_product = tangent_vector.cross(reference_direction);
+			// both tangents have to be perpendicular to the normal
 			Eigen::Matrix3d reference_basis;
-			reference_basis << reference_direction, tangent_vector, ref_cross_product;
+			reference_basis << reference_direction, tangent_vector, cross_product;
 			return std::make_pair(reference_basis, orthogonal_basis);
 		}
 
-- 
2.43.0


From fbaa2ad7ba1ffa72056d7ca9036aaea74e13204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 11/19] fix: ellipsoid normal was not the gradient of the
 distance for curvature factors above one

---
 src/Obstacle/Ellipsoid.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index b0cf626..c3947f7 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -65,12 +65,14 @@ namespace DynamicObstacleAvoidance
 	{
 		Eigen::Array3d point_in_frame = this->get_pose().inverse() * agent.get_position();
 		Eigen::Array3d lengths = this->axis_lengths + this->get_safety_margin() + agent.get_safety_margin();
-		Eigen::Array3d tmp_values = (2 * this->curvature_factor * point_in_frame);
+		Eigen::Array3d tmp_values;
 		for(int i=0; i<3; ++i)
 		{
-			tmp_values(i) = (lengths(i) > this->epsilon) ? tmp_values(i) / (lengths(i) * lengths(i)) : tmp_values(i);
+			double length = (lengths(i) > this->epsilon) ? lengths(i) : 1.0;
+			// gradient of (x / length)^(2 * curvature)
+			tmp_values(i) = 2 * this->curvature_factor(i) / length * std::pow(point_in_frame(i) / length, 2 * this->curvature_factor(i) - 1);
 		}
-		Eigen::Vector3d normal_vector = tmp_values.pow(2 * this->curvature_factor - 1);
+		Eigen::Vector3d normal_vector = tmp_values;
 		normal_vector.normalize();
 		return normal_vector;
 	}
-- 
2.43.0


From 522e9d52d99727f5ef2ed6e072b52c895338e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 12/19] fix: linspace threw a pointer to an exception

---
 src/Utils/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 79ed33a..0b7d49f 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -5,7 +5,7 @@ namespace DynamicObstacleAvoidance
     std::vector<double> MathTools::linspace(double start, double end, int num) {
         // catch rarely, throw often
         if (num < 2) {
-            throw new std::exception();
+            throw std::exception();
         }
         int partitions = num - 1;
         std::vector<double> pts;
-- 
2.43.0


From af43f9c99237c4767b2301e5a3b4abf4f0875a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 13/19] fix: removed obstacles stayed retrievable from an
 aggregated environment

---
 src/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Environment.cpp b/src/Environment.cpp
index 639f92b..47667da 100644
--- a/src/Environment.cpp
+++ b/src/Environment.cpp
@@ -60,7 +60,7 @@ namespace DynamicObstacleAvoidance
 			{
 				for(auto& o:this->obstacle_list)
 				{
-					if(o->get_name() == k) return o;
+					if(o->get_type() == "Aggregate" && o->get_name() == k) return o;
 				}
 			}
 			throw Exceptions::ObstacleNotInEnvironmentException(k);
-- 
2.43.0


From 33ba41cf1fbe3563ee42e16367f9e1db9dd32cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 14/19] fix: the safety margin of an ellipsoid was drawn on its
 surface

---
 src/Obstacle/Ellipsoid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index c3947f7..d79fa8e 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -133,9 +133,9 @@ namespace DynamicObstacleAvoidance
 				xrow.at(j) = point(0);
 				yrow.at(j) = point(1);
 				zrow.at(j) = point(2);
-				xrow_safety.at(j) = point(0);
-				yrow_safety.at(j) = point(1);
-				zrow_safety.at(j) = point(2);
+				xrow_safety.at(j) = safety_point(0);
+				yrow_safety.at(j) = safety_point(1);
+				zrow_safety.at(j) = safety_point(2);
 			}
 			x.at(i) = xrow;
 			y.at(i) = yrow;
-- 
2.43.0


From e50ec21838bfc6b336e18a98dbccb84ac6333ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:48 +0000
Subject: [PATCH 15/19] fix: hull point at the seam was stored with azimuth +pi

---
 src/Obstacle/StarShapeHull.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index f410f18..1fb4bb1 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -81,6 +81,8 @@ namespace DynamicObstacleAvoidance
 				unsigned int k = 0;
 				while(k < intersection_points.size() and ((abs(intersection_points[k](2) - phi[i]) > 1e-4) and (abs((intersection_points[k](2) - 2*M_PI) - phi[i]) > 1e-4))) ++k;
 				surface_point = (k < intersection_points.size()) ? intersection_points[k] : surface_point;
+				// keep the azimuths sorted, a point at the seam may come back with +pi instead of -pi
+				surface_point(2) = phi[i];
 			}
 			surface_point(0) += safety(0);
 			surface_point(0) = std::max(this->min_radius, surface_point(0));
-- 
2.43.0


From fcddc02a26dfc0ee2418b094ffaa89b3556a8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:14 +0000
Subject: [PATCH 16/19] fix: draw the outline of an ellipsoid in the vertical
 plane

The curves plotted for axis "xz" were taken at azimuth -pi/2, where the
first coordinate is constant, so the obstacle appeared as a vertical line.
---
 src/Obstacle/Ellipsoid.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index d79fa8e..6f0230d 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -168,10 +168,14 @@ namespace DynamicObstacleAvoidance
 			std::vector<double> tmp_z_safety(n1);
 			for (unsigned int i=0; i<n1; ++i)
 			{
-				tmp_x.at(i) = x[i][0];
-				tmp_x_safety.at(i) = x_safety[i][0];
-				tmp_z.at(i) = z[i][0];
-				tmp_z_safety.at(i) = z_safety[i][0];
+				// section of the surface by the plane of the first and third axes
+				double theta = alpha.at(i);
+				Eigen::Vector3d point = this->get_pose() * Eigen::Vector3d(this->get_axis_lengths(0) * sin(theta), 0, this->get_axis_lengths(2) * cos(theta));
+				Eigen::Vector3d safety_point = this->get_pose() * Eigen::Vector3d(safety_length(0) * sin(theta), 0, safety_length(2) * cos(theta));
+				tmp_x.at(i) = point(0);
+				tmp_x_safety.at(i) = safety_point(0);
+				tmp_z.at(i) = point(2);
+				tmp_z_safety.at(i) = safety_point(2);
 			}
 			plt::plot(tmp_x, tmp_z, color + "-");
 			plt::plot(tmp_x_safety, tmp_z_safety, color + "--");
-- 
2.43.0


From 9b112dde9a32b5e9a22434d544c9124c98ca0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:14 +0000
Subject: [PATCH 17/19] fix: surface area of an ellipsoid averages products of
 axis lengths

The approximation was applied to the lengths themselves, which gives
4*pi*r for a sphere of radius r instead of 4*pi*r^2.
---
 src/Obstacle/Ellipsoid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 6f0230d..6afea19 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -253,7 +253,7 @@ namespace DynamicObstacleAvoidance
 	double Ellipsoid::area(bool is_include_safety_margin) const
 	{
 		Eigen::Array3d lengths = (is_include_safety_margin) ? this->get_axis_lengths() + this->get_safety_margin() : this->get_axis_lengths();
-		return 4 * M_PI * (pow((pow(lengths(0), 1.6) + pow(lengths(1), 1.6) + pow(lengths(2), 1.6))/3, 1/1.6));
+		return 4 * M_PI * (pow((pow(lengths(0) * lengths(1), 1.6) + pow(lengths(0) * lengths(2), 1.6) + pow(lengths(1) * lengths(2), 1.6))/3, 1/1.6));
 	}
 
 	Eigen::Vector3d Ellipsoid::compute_repulsion_vector(const Agent& agent) const
-- 
2.43.0


From b41e943d2cbc5ecf4335dde419f36132a705af20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:14 +0000
Subject: [PATCH 18/19] fix: plot the agent in the vertical plane in the
 vertical panel

---
 src/Utils/Plotting/PlottingTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/Plotting/PlottingTools.cpp b/src/Utils/Plotting/PlottingTools.cpp
index 7d97514..b7e4069 100644
--- a/src/Utils/Plotting/PlottingTools.cpp
+++ b/src/Utils/Plotting/PlottingTools.cpp
@@ -64,7 +64,7 @@ namespace DynamicObstacleAvoidance
 
 			plt::subplot(2, 1, 2);
 			plot_obstacles(obstacles, "xz");
-			plot_agent(agent, "xy");
+			plot_agent(agent, "xz");
 			plot_agent_trajectory(goal, position_history, "xz");
 			plt::xlim(-10, 10);
 			plt::ylim(-10, 10);
-- 
2.43.0


From 18afa2f7472312b0ab454a5eab8e9f4e59a75f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:45 +0000
Subject: [PATCH 19/19] fix: draw hulls and the mark of an aggregate in the
 requested plane

---
 src/Obstacle/Aggregate.cpp     |  2 +-
 src/Obstacle/StarShapeHull.cpp | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index 0b235ac..5e8753c 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -95,7 +95,7 @@ namespace DynamicObstacleAvoidance
 		{
 			o->draw(color, axis);
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, "bx");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()((axis == "xz") ? 2 : 1)}, "bx");
 		this->outside_hull.draw("k", axis);
 		this->inside_hull.draw("k", axis);
 	}
diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 1fb4bb1..a2240e0 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -134,8 +134,10 @@ namespace DynamicObstacleAvoidance
 		return distance;
 	}
 
-	void StarShapeHull::draw(const std::string& color, const std::string&) const
+	void StarShapeHull::draw(const std::string& color, const std::string& axis) const
 	{
+		// second coordinate of the drawing plane
+		unsigned int k = (axis == "xz") ? 2 : 1;
 		std::vector<double> x;
 		std::vector<double> y;
 
@@ -144,20 +146,20 @@ namespace DynamicObstacleAvoidance
 		for (unsigned int i=0; i<this->resolution; ++i)
 		{		
 			x.push_back(this->cartesian_surface_points.col(i)(0));
-			y.push_back(this->cartesian_surface_points.col(i)(1));
+			y.push_back(this->cartesian_surface_points.col(i)(k));
 		}
 
 		plt::plot(x, y, color + "--");
 
 		if(this->get_name() == "")
 		{
-			plt::plot({this->get_position()(0)}, {this->get_position()(1)}, color + "o");
+			plt::plot({this->get_position()(0)}, {this->get_position()(k)}, color + "o");
 		}
 		else
 		{
-			plt::text(this->get_position()(0), this->get_position()(1), this->get_name());
+			plt::text(this->get_position()(0), this->get_position()(k), this->get_name());
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, color + "x");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(k)}, color + "x");
 	}
 
 	bool StarShapeHull::point_is_inside(const Eigen::Vector3d& point) const
-- 
2.43.0

